From 65b5cc1ce873ff9c0929c0f5b4fb139efcdb2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 01/59] fix: refuse tags too large to represent instead of
 overflowing

---
 include/fast_ber/util/Extract.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/util/Extract.hpp b/include/fast_ber/util/Extract.hpp
index dda9838..d1140ce 100644
--- a/include/fast_ber/util/Extract.hpp
+++ b/include/fast_ber/util/Extract.hpp
@@ -6,6 +6,8 @@
 
 #include "absl/types/span.h"
 
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -92,14 +94,17 @@ inline size_t extract_tag(absl::Span<const uint8_t> input, Tag& tag) noexcept
         tag = 0;
         for (size_t i = 1; i < input.length(); i++)
         {
+            if (tag > (std::numeric_limits<Tag>::max() >> 7))
+            {
+                return 0; // Tag is too large to represent
+            }
+            tag *= 0x80;
             tag += (input[i] & 0x7F);
 
             if ((input[i] & 0x80) == 0)
             {
                 return i + 1;
             }
-
-            tag *= 0x80;
         }
         return 0;
     }
-- 
2.43.0


From f83bccb9787ce4d763cde065ad614b7400b16bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 02/59] fix: view validity check no longer wraps for huge
 content lengths

---
 include/fast_ber/util/BerView.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 4cd7590..2db1754 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -195,12 +195,12 @@ inline void BerView::assign(absl::Span<const uint8_t> input_ber_data) noexcept
 {
     size_t input_content_length = 0;
 
-    size_t input_tag_length      = extract_tag(input_ber_data, m_tag);
-    size_t input_len_length      = extract_length(input_ber_data, input_content_length, input_tag_length);
-    size_t input_header_length   = input_tag_length + input_len_length;
-    size_t input_complete_length = input_header_length + input_content_length;
+    size_t input_tag_length    = extract_tag(input_ber_data, m_tag);
+    size_t input_len_length    = extract_length(input_ber_data, input_content_length, input_tag_length);
+    size_t input_header_length = input_tag_length + input_len_length;
 
-    if (input_tag_length == 0 || input_len_length == 0 || input_complete_length > input_ber_data.length())
+    if (input_tag_length == 0 || input_len_length == 0 ||
+        input_content_length > input_ber_data.length() - input_header_length)
     {
         m_header_length  = 0;
         m_content_length = 0;
-- 
2.43.0


From 65a69c318405b472b64e40e076a43620b67fc741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 03/59] fix: identifier_length of a view counts the octets
 actually present

---
 include/fast_ber/util/BerView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 2db1754..f0d7490 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -40,7 +40,7 @@ class BerView
     RuntimeId    identifier() const { return {class_(), tag()}; }
     Class        class_() const noexcept { return get_class(m_data[0]); }
     Tag          tag() const noexcept { return m_tag; }
-    size_t       identifier_length() const noexcept { return encoded_tag_length(tag()); }
+    size_t       identifier_length() const noexcept { return extract_tag_length(ber()); }
     size_t       header_length() const noexcept { return m_header_length; }
 
     absl::Span<const uint8_t> content() const noexcept { return absl::MakeSpan(content_data(), m_content_length); }
-- 
2.43.0


From 21a9e866918f70a4e4bd0f08e93da79879da5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 04/59] fix: move a dynamically stored optional instead of
 converting it to its element type

---
 include/fast_ber/ber_types/Optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Optional.hpp b/include/fast_ber/ber_types/Optional.hpp
index ae42f2e..3b06601 100644
--- a/include/fast_ber/ber_types/Optional.hpp
+++ b/include/fast_ber/ber_types/Optional.hpp
@@ -70,14 +70,14 @@ struct IdentifierType<Optional<T, s1>>
 };
 
 template <typename T, StorageMode s1>
-Optional<T, s1>::Optional(Optional<T, s1>&& rhs) noexcept : Implementation(std::move(rhs))
+Optional<T, s1>::Optional(Optional<T, s1>&& rhs) noexcept : Implementation(static_cast<Implementation&&>(rhs))
 {
 }
 
 template <typename T, StorageMode s1>
 Optional<T, s1>& Optional<T, s1>::operator=(Optional<T, s1>&& rhs) noexcept
 {
-    this->Implementation::operator=(std::move(rhs));
+    this->Implementation::operator=(static_cast<Implementation&&>(rhs));
     return *this;
 }
 
-- 
2.43.0


From 6a75d192b06df0bdcc949b9855f8601d581d04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 05/59] fix: refuse integers without content octets

---
 include/fast_ber/ber_types/Integer.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Integer.hpp b/include/fast_ber/ber_types/Integer.hpp
index 4b8cc4c..87726bd 100644
--- a/include/fast_ber/ber_types/Integer.hpp
+++ b/include/fast_ber/ber_types/Integer.hpp
@@ -63,7 +63,7 @@ class Integer
 
     size_t       encoded_length() const noexcept { return m_contents.ber_length(); }
     EncodeResult encode(absl::Span<uint8_t> buffer) const noexcept { return m_contents.encode(buffer); }
-    DecodeResult decode(BerView rhs) noexcept { return m_contents.decode(rhs); }
+    DecodeResult decode(BerView rhs) noexcept;
 
     template <typename Identifier2>
     friend class Integer;
@@ -183,6 +183,20 @@ inline void Integer<Identifier>::assign(const Integer<Identifier2>& rhs) noexcep
     m_contents = rhs.m_contents;
 }
 
+template <typename Identifier>
+DecodeResult Integer<Identifier>::decode(BerView rhs) noexcept
+{
+    decltype(m_contents) contents;
+    if (!contents.decode(rhs).success || contents.content_length() == 0)
+    {
+        // X690 Clause 8.3.1: The contents octets shall consist of one or more octets
+        return DecodeResult{false};
+    }
+
+    m_contents = contents;
+    return DecodeResult{true};
+}
+
 template <typename Identifier>
 DecodeResult decode(BerViewIterator& input, Integer<Identifier>& output) noexcept
 {
-- 
2.43.0


From ed8cdbe034bd60193bddf21040db83add0441a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 06/59] fix: refuse enumerated numbers that do not fit the
 enumeration's type

---
 include/fast_ber/ber_types/Enumerated.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Enumerated.hpp b/include/fast_ber/ber_types/Enumerated.hpp
index 0a09663..394301d 100644
--- a/include/fast_ber/ber_types/Enumerated.hpp
+++ b/include/fast_ber/ber_types/Enumerated.hpp
@@ -84,7 +84,20 @@ EncodeResult Enumerated<EnumeratedType, Identifier>::encode(absl::Span<uint8_t>
 template <typename EnumeratedType, typename Identifier>
 DecodeResult Enumerated<EnumeratedType, Identifier>::decode(BerView input) noexcept
 {
-    return this->m_val.decode(input);
+    Integer<Identifier> val;
+    if (!val.decode(input).success)
+    {
+        return DecodeResult{false};
+    }
+
+    // A number which the enumeration can not hold must not be mistaken for one of its values
+    if (static_cast<int64_t>(static_cast<EnumeratedType>(val.value())) != val.value())
+    {
+        return DecodeResult{false};
+    }
+
+    m_val = val;
+    return DecodeResult{true};
 }
 
 template <typename EnumeratedType, typename Identifier>
-- 
2.43.0


From cc4a2f38e0456eec5c7010a1d9e5ff9b166184da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 07/59] fix: a decoded string holds the content of the inner
 element, whatever follows it

---
 include/fast_ber/util/FixedIdBerContainer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index 8c7fb03..f8137c2 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -178,8 +178,7 @@ DecodeResult FixedIdBerContainer<Identifier>::decode_impl(BerView input_view, Id
         return DecodeResult{false};
     }
 
-    m_data.assign(input_view.ber().begin(), input_view.ber().end());
-    m_content_length = input_view.content_length();
+    assign_content(input_view.content());
     return DecodeResult{true};
 }
 
@@ -202,8 +201,7 @@ DecodeResult FixedIdBerContainer<Identifier>::decode_impl(BerView
         return DecodeResult{false};
     }
 
-    m_data.assign(input_view.ber().begin(), input_view.ber().end());
-    m_content_length = input_view.begin()->content_length();
+    assign_content(input_view.begin()->content());
     return DecodeResult{true};
 }
 
-- 
2.43.0


From 872948433dbe9db77f17afe64edd6555c3edf222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 08/59] fix: assigning part of a string's own content to it

---
 include/fast_ber/util/FixedIdBerContainer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index f8137c2..2befa34 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -11,6 +11,7 @@
 #include "absl/types/span.h"
 
 #include <array>
+#include <functional>
 
 namespace fast_ber
 {
@@ -211,6 +212,15 @@ void FixedIdBerContainer<Identifier>::assign_content(const absl::Span<const uint
     const size_t encoded_len = fast_ber::encoded_length(input_content.length(), Identifier{});
     const size_t header_len  = encoded_len - input_content.length();
 
+    // The new content may be part of the current content
+    if (std::less_equal<const uint8_t*>{}(m_data.data(), input_content.data()) &&
+        std::less<const uint8_t*>{}(input_content.data(), m_data.data() + m_data.size()))
+    {
+        const absl::InlinedVector<uint8_t, 100u> copy(input_content.begin(), input_content.end());
+        assign_content(copy);
+        return;
+    }
+
     m_data.resize(encoded_len);
     std::memcpy(m_data.data() + header_len, input_content.data(), input_content.length());
     encode_header(absl::Span<uint8_t>(m_data), input_content.size(), Identifier{}, Construction::primitive);
-- 
2.43.0


From dbfb7c04d5070e16e53498b8d5d57aab1dbb7696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 09/59] fix: a moved-from string is empty instead of holding a
 stale length

---
 include/fast_ber/util/FixedIdBerContainer.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index 2befa34..f0002c6 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -91,8 +91,9 @@ FixedIdBerContainer<Identifier>::FixedIdBerContainer(const FixedIdBerContainer&
 
 template <typename Identifier>
 FixedIdBerContainer<Identifier>::FixedIdBerContainer(FixedIdBerContainer&& rhs) noexcept
-    : m_data(std::move(rhs.m_data)), m_content_length(std::move(rhs.m_content_length))
+    : m_data(std::move(rhs.m_data)), m_content_length(rhs.m_content_length)
 {
+    rhs.assign_content({});
 }
 
 template <typename Identifier>
@@ -148,8 +149,12 @@ template <typename Identifier1>
 FixedIdBerContainer<Identifier1>&
 FixedIdBerContainer<Identifier1>::operator=(FixedIdBerContainer<Identifier1>&& rhs) noexcept
 {
-    m_data           = std::move(rhs.m_data);
-    m_content_length = std::move(rhs.m_content_length);
+    if (this != &rhs)
+    {
+        m_data           = std::move(rhs.m_data);
+        m_content_length = rhs.m_content_length;
+        rhs.assign_content({});
+    }
     return *this;
 }
 
-- 
2.43.0


From 554cc7abfcb2867ef9db4cc4537fba6e34fd8f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 10/59] fix: a refused time no longer replaces the value held

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 5ffbe31..c285627 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -174,12 +174,15 @@ EncodeResult GeneralizedTime<Identifier>::encode(absl::Span<uint8_t> output) con
 template <typename Identifier>
 DecodeResult GeneralizedTime<Identifier>::decode(BerView view) noexcept
 {
-    DecodeResult res = m_contents.decode(view);
-    if (m_contents.content_length() < minimum_timestamp_length || m_contents.content_length() > max_timestamp_length)
+    FixedIdBerContainer<Identifier> contents;
+    if (!contents.decode(view).success || contents.content_length() < minimum_timestamp_length ||
+        contents.content_length() > max_timestamp_length)
     {
         return DecodeResult{false};
     }
-    return res;
+
+    m_contents = std::move(contents);
+    return DecodeResult{true};
 }
 
 template <typename Identifier>
-- 
2.43.0


From 06c4e6200bd0bd3e4ba8ba0aea4ceb1343e32e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 11/59] fix: content that is not a time can be printed,
 compared and told apart from a time

---
 .../fast_ber/ber_types/GeneralizedTime.hpp    | 79 +++++++++++++------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index c285627..b11115a 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -7,6 +7,10 @@
 #include "absl/strings/string_view.h"
 #include "absl/time/time.h"
 
+#include <algorithm>
+#include <stdexcept>
+#include <string>
+
 namespace fast_ber
 {
 constexpr const int minimum_timestamp_length = 10;
@@ -31,6 +35,8 @@ class GeneralizedTime
     void set_time(const absl::Time& time);
     void set_time(const absl::Time& time, int timezone_offset_minutes);
 
+    // Reads the time. Decoded content may not be a time: parse() returns false and time() throws in this case
+    bool        parse(absl::Time& time) const;
     absl::Time  time() const;
     std::string string() const;
     TimeFormat  format() const;
@@ -58,7 +64,13 @@ class GeneralizedTime
 template <typename Identifier>
 bool operator==(const GeneralizedTime<Identifier>& lhs, const GeneralizedTime<Identifier>& rhs)
 {
-    return lhs.time() == rhs.time();
+    absl::Time lhs_time;
+    absl::Time rhs_time;
+    if (lhs.parse(lhs_time) && rhs.parse(rhs_time))
+    {
+        return lhs_time == rhs_time;
+    }
+    return lhs.string() == rhs.string();
 }
 
 template <typename Identifier>
@@ -105,10 +117,14 @@ void GeneralizedTime<Identifier>::set_time(const absl::Time& time, int timezone_
 template <typename Identifier>
 typename GeneralizedTime<Identifier>::TimeFormat GeneralizedTime<Identifier>::format() const
 {
-    if (m_contents.content().back() == 'Z')
+    if (m_contents.content_length() > 0 && m_contents.content().back() == 'Z')
     {
         return TimeFormat::universal;
     }
+    else if (m_contents.content_length() < 5)
+    {
+        return TimeFormat::local;
+    }
     else if ((m_contents.content()[m_contents.content_length() - 5] == '-') ||
              (m_contents.content()[m_contents.content_length() - 5] == '+'))
     {
@@ -121,34 +137,37 @@ typename GeneralizedTime<Identifier>::TimeFormat GeneralizedTime<Identifier>::fo
 }
 
 template <typename Identifier>
-absl::Time GeneralizedTime<Identifier>::time() const
+bool GeneralizedTime<Identifier>::parse(absl::Time& time) const
 {
-    thread_local std::string s_error_string;
-    absl::Time               time;
-    const TimeFormat         frmt = format();
+    const TimeFormat frmt     = format();
+    std::string      time_str = this->string();
+    std::string      suffix;
 
-    if (frmt == TimeFormat::universal)
+    if (frmt != TimeFormat::local)
     {
-        if (!absl::ParseTime(g_universal_time_format, this->string(), absl::UTCTimeZone(), &time, &s_error_string))
-        {
-            throw std::runtime_error("Failed to parse time: " + s_error_string);
-        }
+        const size_t suffix_length = (frmt == TimeFormat::universal) ? 1 : 5;
+        suffix                     = time_str.substr(time_str.length() - suffix_length);
+        time_str.resize(time_str.length() - suffix_length);
     }
-    else if (frmt == TimeFormat::universal_with_timezone)
+
+    // ParseTime accepts more than ASN.1 does: white space, fewer digits, names of special times
+    const auto is_digit = [](char c) { return c >= '0' && c <= '9'; };
+    if (time_str.length() != 14 || !std::all_of(time_str.begin(), time_str.end(), is_digit) ||
+        (suffix.length() == 5 && !std::all_of(suffix.begin() + 1, suffix.end(), is_digit)))
     {
-        const auto time_str = this->string();
-        if (!absl::ParseTime(g_universal_time_with_time_zone_format, time_str.substr(.0, time_str.length() - 5),
-                             absl::UTCTimeZone(), &time, &s_error_string))
-        {
-            throw std::runtime_error("Failed to parse time: " + s_error_string);
-        }
+        return false;
     }
-    else if (frmt == TimeFormat::local)
+
+    return absl::ParseTime(g_local_time_format, time_str, absl::UTCTimeZone(), &time, nullptr);
+}
+
+template <typename Identifier>
+absl::Time GeneralizedTime<Identifier>::time() const
+{
+    absl::Time time;
+    if (!parse(time))
     {
-        if (!absl::ParseTime(g_local_time_format, this->string(), absl::UTCTimeZone(), &time, &s_error_string))
-        {
-            throw std::runtime_error("Failed to parse time: " + s_error_string);
-        }
+        throw std::runtime_error("Failed to parse time: " + this->string());
     }
     return time;
 }
@@ -188,7 +207,19 @@ DecodeResult GeneralizedTime<Identifier>::decode(BerView view) noexcept
 template <typename Identifier>
 std::ostream& operator<<(std::ostream& os, const GeneralizedTime<Identifier>& time)
 {
-    return os << time.time();
+    absl::Time parsed;
+    if (time.parse(parsed))
+    {
+        return os << parsed;
+    }
+
+    // Not a time, show the characters which are held
+    const std::string str = time.string();
+    if (std::all_of(str.begin(), str.end(), [](unsigned char c) { return c >= 0x20 && c < 0x7F; }))
+    {
+        return os << str;
+    }
+    return os << "binary data";
 }
 
 } // namespace fast_ber
-- 
2.43.0


From c42d6b106f1317aaeebff2d275c018c54e3b6915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 12/59] fix: read a local time in the time zone it is written
 in

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index b11115a..f0abaf5 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -158,7 +158,8 @@ bool GeneralizedTime<Identifier>::parse(absl::Time& time) const
         return false;
     }
 
-    return absl::ParseTime(g_local_time_format, time_str, absl::UTCTimeZone(), &time, nullptr);
+    const auto time_zone = (frmt == TimeFormat::local) ? absl::LocalTimeZone() : absl::UTCTimeZone();
+    return absl::ParseTime(g_local_time_format, time_str, time_zone, &time, nullptr);
 }
 
 template <typename Identifier>
-- 
2.43.0


From e8ec27e377440e8744ae256320cd787dbe40e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 13/59] fix: object identifiers keep every legal arc, and never
 show arcs that were not sent

---
 .../fast_ber/ber_types/ObjectIdentifier.hpp   | 166 ++++++++----------
 1 file changed, 71 insertions(+), 95 deletions(-)

diff --git a/include/fast_ber/ber_types/ObjectIdentifier.hpp b/include/fast_ber/ber_types/ObjectIdentifier.hpp
index 3033164..80480b1 100644
--- a/include/fast_ber/ber_types/ObjectIdentifier.hpp
+++ b/include/fast_ber/ber_types/ObjectIdentifier.hpp
@@ -7,6 +7,9 @@
 #include "absl/container/inlined_vector.h"
 #include "absl/types/span.h"
 
+#include <algorithm>
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -60,22 +63,42 @@ class ObjectIdentifier
     FixedIdBerContainer<Identifier> m_contents;
 };
 
+// X660 Clause 7.6: the first two arcs are encoded together. The root arc has a value of 0, 1 or 2, below 0 and 1 arcs
+// are limited to 39. Returns false if the combined number is not representable
+inline bool combine_first_arcs(const ObjectIdentifierComponents& input, int64_t& combined) noexcept
+{
+    if (input.size() < 2 || input[0] < 0 || input[0] > 2 || input[1] < 0 || (input[0] < 2 && input[1] > 39) ||
+        input[1] > std::numeric_limits<int64_t>::max() - 80)
+    {
+        return false;
+    }
+    combined = 40 * input[0] + input[1];
+    return true;
+}
+
+inline size_t encoded_subidentifier_length(int64_t subidentifier) noexcept
+{
+    size_t length = 1;
+    while (subidentifier > 127)
+    {
+        length++;
+        subidentifier /= 128;
+    }
+    return length;
+}
+
 inline size_t encoded_object_id_length(const ObjectIdentifierComponents& input) noexcept
 {
-    if (input.size() < 2)
+    int64_t combined = 0;
+    if (!combine_first_arcs(input, combined))
     {
         return 0;
     }
 
-    size_t output_size = 1;
+    size_t output_size = encoded_subidentifier_length(combined);
     for (size_t i = 2; i < input.size(); i++)
     {
-        int64_t component = input[i];
-        do
-        {
-            output_size++;
-            component /= 128;
-        } while (component > 0);
+        output_size += encoded_subidentifier_length(input[i]);
     }
     return output_size;
 }
@@ -88,36 +111,22 @@ inline EncodeResult encode_object_id(absl::Span<uint8_t> output, const ObjectIde
         encoded_length = encoded_object_id_length(input);
     }
 
-    if (output.empty() || output.size() < encoded_length || input.size() < 2 || input[0] > 2 || input[1] > 39)
+    int64_t combined = 0;
+    if (output.empty() || output.size() < encoded_length || !combine_first_arcs(input, combined) ||
+        std::any_of(input.begin(), input.end(), [](int64_t component) { return component < 0; }))
     {
         return EncodeResult{false, 0};
     }
 
-    output[0] = static_cast<uint8_t>(40 * input[0] + input[1]);
-
-    size_t output_write_pos = encoded_length - 1;
-    for (size_t i = input.size() - 1; i > 1; i--)
+    size_t output_write_pos = encoded_length;
+    for (size_t i = input.size() - 1; i > 0; i--)
     {
-        int64_t component = input[i];
-        if (component < 0)
-        {
-            return EncodeResult{false, 0};
-        }
-
-        bool first = true;
+        int64_t component = (i == 1) ? combined : input[i];
+        uint8_t more      = 0x00;
         do
         {
-            output[output_write_pos] = static_cast<uint8_t>(component % 128);
-            if (first)
-            {
-                first = false;
-            }
-            else
-            {
-                output[output_write_pos] |= 0x80;
-            }
-
-            output_write_pos--;
+            output[--output_write_pos] = static_cast<uint8_t>(component % 128) | more;
+            more                       = 0x80;
             component /= 128;
         } while (component > 0);
     }
@@ -125,33 +134,38 @@ inline EncodeResult encode_object_id(absl::Span<uint8_t> output, const ObjectIde
     return EncodeResult{true, encoded_length};
 }
 
-inline DecodeResult decode_object_id(absl::Span<const uint8_t> input, absl::InlinedVector<int64_t, 10>& output) noexcept
+// Returns false, with no components, if the input is empty or truncated or if a component does not fit an int64_t
+inline DecodeResult decode_object_id(absl::Span<const uint8_t> input, ObjectIdentifierComponents& output) noexcept
 {
-    if (!output.empty())
-    {
-        output.clear();
-    }
+    output.clear();
 
-    if (input.empty())
+    if (input.empty() || (input.back() & 0x80))
     {
         return DecodeResult{false};
     }
 
-    output.push_back(input[0] / 40);
-    output.push_back(input[0] % 40);
-
-    for (size_t i = 1, current_num = 0; i < input.length(); i++)
+    int64_t current_num = 0;
+    for (const uint8_t byte : input)
     {
-        current_num += 0x7F & input[i];
-        if (0x80 & input[i])
+        if (current_num > (std::numeric_limits<int64_t>::max() >> 7))
+        {
+            output.clear();
+            return DecodeResult{false};
+        }
+
+        current_num = current_num * 128 + (0x7F & byte);
+        if (0x80 & byte)
         {
-            current_num *= 0x80;
+            continue;
         }
-        else
+
+        if (output.empty())
         {
-            output.push_back(current_num);
-            current_num = 0;
+            output.push_back(std::min<int64_t>(current_num / 40, 2));
+            current_num -= 40 * output.front();
         }
+        output.push_back(current_num);
+        current_num = 0;
     }
 
     return DecodeResult{true};
@@ -159,58 +173,20 @@ inline DecodeResult decode_object_id(absl::Span<const uint8_t> input, absl::Inli
 
 inline int64_t get_component_number(absl::Span<const uint8_t> input, size_t number_of_component_to_extract) noexcept
 {
-    if (input.empty())
+    ObjectIdentifierComponents components;
+    if (!decode_object_id(input, components).success || number_of_component_to_extract >= components.size())
     {
         return -1;
     }
 
-    if (number_of_component_to_extract == 0)
-    {
-        return input[0] / 40;
-    }
-    if (number_of_component_to_extract == 1)
-    {
-        return input[1] % 40;
-    }
-
-    for (size_t i = 1, current_num = 0, current_component_number = 2; i < static_cast<size_t>(input.length()); i++)
-    {
-        current_num += 0x7F & input[i];
-        if (0x80 & input[i])
-        {
-            current_num *= 0x80;
-        }
-        else
-        {
-            current_num = 0;
-            if (current_component_number == number_of_component_to_extract)
-            {
-                return current_num;
-            }
-            current_component_number++;
-        }
-    }
-
-    return -1;
+    return components[number_of_component_to_extract];
 }
 
 inline size_t get_number_of_components(absl::Span<const uint8_t> input) noexcept
 {
-    if (input.empty())
-    {
-        return 0;
-    }
-
-    size_t number_of_components = 2;
-    for (size_t i = 1; i < input.length(); i++)
-    {
-        if (!(0x80 & input[i]))
-        {
-            number_of_components++;
-        }
-    }
-
-    return number_of_components;
+    ObjectIdentifierComponents components;
+    decode_object_id(input, components);
+    return components.size();
 }
 
 template <typename Identifier>
@@ -274,12 +250,12 @@ ObjectIdentifierComponents ObjectIdentifier<Identifier>::value() const noexcept
 template <typename Identifier>
 bool ObjectIdentifier<Identifier>::assign(const ObjectIdentifierComponents& oid) noexcept
 {
-    const size_t encoded_length = encoded_object_id_length(oid);
-    m_contents.resize_content(encoded_length);
-    EncodeResult res = encode_object_id(absl::Span<uint8_t>(m_contents.content()), oid, encoded_length);
+    absl::InlinedVector<uint8_t, 100> content(encoded_object_id_length(oid));
+
+    EncodeResult res = encode_object_id(absl::Span<uint8_t>(content), oid, content.size());
     if (res.success)
     {
-        assert(res.length == m_contents.content_length());
+        m_contents.assign_content(content);
     }
     return res.success;
 }
-- 
2.43.0


From 93fa0c3e38b385a276030f432a70f5f0db846c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 14/59] fix: read all exponent octets of a binary real, and
 only those

---
 include/fast_ber/ber_types/Real.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 794e3e9..d878988 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -76,7 +76,7 @@ inline bool check_real_binary(absl::Span<const uint8_t> input) noexcept
     /* Minimal binary construction is: | control | exponent | number |  => length is 3 bytes minimum
      * Check that base bits are not set to the reserved value, see X690 Clause 8.5.7.4
      * */
-    if (input.length() > 3 && (input[0] & 0x30) != 0x30)
+    if (input.length() >= 3 && (input[0] & 0x30) != 0x30)
     {
         /* X690 Clause 8.5.7.4 */
         size_t exponent_len    = (input[0] & 0x03) + 1;
@@ -97,8 +97,8 @@ inline bool check_real_binary(absl::Span<const uint8_t> input) noexcept
             return false;
         }
 
-        /* Check that the exponent does not start with 9 identical bits */
-        if (exponent_len > 1)
+        /* X690 Clause 8.5.7.4.d: Check that the exponent does not start with 9 identical bits */
+        if (exponent_offset == 2 && exponent_len > 1)
         {
             uint8_t first_byte  = input[exponent_offset];
             uint8_t second_byte = input[exponent_offset + 1];
@@ -240,7 +240,7 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
     int factor = (input[0] & 0x0C) >> 2;
 
     /* Read exponent */
-    for (size_t i = 0; i < exponent_offset; ++i)
+    for (size_t i = 0; i < exponent_len; ++i)
     {
         exponent = (exponent << 8) | input[exponent_offset + i];
     }
-- 
2.43.0


From 911c964e9ddd2979d09834f06a3e7d451ec34998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 15/59] fix: decode binary reals with any mantissa and
 exponent, without looping forever

---
 include/fast_ber/ber_types/Real.hpp | 128 +++-------------------------
 1 file changed, 11 insertions(+), 117 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index d878988..18311f4 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -300,12 +300,8 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
         return true;
     }
 
-    /* Get Mantissa into a buffer
-     * One more byte is read because there could be a 3 or 4 bits shift, see X690 Clause 8.5.7
-     * */
-    std::array<uint8_t, 9> double_bytes    = {};
-    size_t                 mantissa_offset = exponent_len + exponent_offset;
-    size_t                 mantissa_len    = input.length() - mantissa_offset;
+    size_t mantissa_offset = exponent_len + exponent_offset;
+    size_t mantissa_len    = input.length() - mantissa_offset;
 
     /* Skip leading zeros */
     while (mantissa_len > 1 && input[mantissa_offset] == 0)
@@ -314,121 +310,19 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
         mantissa_len--;
     }
 
-    /* Put mantissa into bytes 1 to 7 and adapt the exponent */
-    for (size_t i = 0; i < 8; i++)
-    {
-        if (i < mantissa_len)
-        {
-            double_bytes[i + 1] = input[mantissa_offset + i];
-        }
-    }
-
-    /* IEEE 754 double format is: | 1 bit Sign | 11 bits exponent | 52 bits mantissa |
-     * Exponent bias is 2^(k-1) - 1 where k = exponent size in bits. Here bias = 1023
-     * Add mantissa size to the bias to get an exponent corresponding to the mantissa
-     * bias = 1023 + 52 = 1075
-     * */
-    exponent += ((mantissa_len - 7) << 3) + 1075;
-
-    /* For a normalized value, the mantissa size is 52 bits with an implicit hidden bit which equals 1
-     * Set double_bytes to have b0001 in the first 4 bits of the first double byte
-     * See X690 Clause 8.5.7 */
-    if ((double_bytes[1] & 0xE0) != 0 && exponent < 0x7FF)
-    {
-        /* Mantissa is too big - shift right up to 3 bits */
-        int          shift      = 0;
-        unsigned int first_byte = double_bytes[1];
-
-        /* Adapt exponent */
-        while ((first_byte & 0xE0) != 0 && exponent < (0x7FF - shift))
-        {
-            first_byte >>= 1;
-            shift++;
-        }
-        exponent += shift;
-
-        /* Adapt double bytes */
-        for (int j = 7; j > 0; --j)
-        {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
-        }
-    }
-    else if ((double_bytes[1] & 0xF0) == 0 && exponent > 0)
-    {
-        /* Mantissa is too small - shift left up to 4 bits */
-        int          shift      = 8;
-        unsigned int first_byte = double_bytes[1];
-
-        /* Adapt exponent */
-        while ((first_byte & 0xF0) == 0 && exponent > (8 - shift))
-        {
-            exponent -= 8 - shift;
-        }
-
-        for (int j = 1; j < 8; ++j)
-        {
-            unsigned int first_byte_shifted = static_cast<unsigned int>(double_bytes[j]) << 8;
-            double_bytes[j]                 = (first_byte_shifted | double_bytes[j + 1]) >> shift;
-        }
-    }
-
-    /* Verify that exponent does not overflow after modification */
-    if (exponent >= 0x7FF || exponent <= -55)
-    {
-        /* Exponent too large for a double */
-        if (exponent >= 0)
-        {
-            output =
-                mantissa_sign == 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
-        }
-        else
-        {
-            /* Exponent too small for a double */
-            output = mantissa_sign == 0 ? 0.0 : -0.0;
-        }
-
-        return true;
-    }
-
-    /* Normalize the value if necessary */
-    if (exponent <= 0)
+    /* Read the mantissa. A double holds 53 bits, the octets behind the first 16 only change the magnitude */
+    const size_t significant_len = std::min<size_t>(mantissa_len, 16);
+    double       mantissa        = 0;
+    for (size_t i = 0; i < significant_len; i++)
     {
-        /* correct the exponent to shift one bit more right */
-        --exponent;
-
-        /* Shift the mantissa right until exponent is 0 */
-        int shift = (-exponent) >> 3;
-        for (int j = 7; j > shift; --j)
-        {
-            double_bytes[j] = double_bytes[j - shift];
-        }
-        for (int j = shift; j > 0; --j)
-        {
-            double_bytes[j] = 0;
-        }
-        /* shift right bit by bit */
-        shift = -exponent & 0x07;
-        for (int j = 7; j > 0; --j)
-        {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
-        }
-
-        /* exponent for a denormalized value */
-        exponent = 0;
+        mantissa = mantissa * 256 + input[mantissa_offset + i];
     }
 
-    /* Finally add the mantissa sign and the exponent to the double bytes */
-    double_bytes[0] = (mantissa_sign << 7) | (exponent >> 4);
-    double_bytes[1] = (exponent << 4) | (double_bytes[1] & 0x0F);
-
-#ifdef ABSL_IS_LITTLE_ENDIAN
-    /* Reverse bytes if needed */
-    std::reverse(double_bytes.begin(), double_bytes.end() - 1);
-#endif
+    /* Only as many octets as can change the result count, their number must not overflow the exponent */
+    exponent += static_cast<int>(8 * std::min<size_t>(mantissa_len - significant_len, 0xFFFFFF));
 
-    memcpy(&output, double_bytes.data(), sizeof(double));
+    /* Overflows to infinity, underflows to zero */
+    output = std::ldexp(mantissa_sign == 0 ? mantissa : -mantissa, exponent);
     return true;
 }
 
-- 
2.43.0


From 7680acbd94d6cc295697ea5e1530c6ef3a1244e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 16/59] fix: refuse reals with malformed content instead of
 reading them as zero

---
 include/fast_ber/ber_types/Real.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 18311f4..e71b26d 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -531,7 +531,15 @@ EncodeResult Real<Identifier>::encode(absl::Span<uint8_t> output) const noexcept
 template <typename Identifier>
 DecodeResult Real<Identifier>::decode(BerView input) noexcept
 {
-    return m_contents.decode(input);
+    decltype(m_contents) contents;
+    double               ignored = 0;
+    if (!contents.decode(input).success || !decode_real(contents.content(), ignored))
+    {
+        return DecodeResult{false};
+    }
+
+    m_contents = contents;
+    return DecodeResult{true};
 }
 
 template <typename Identifier>
-- 
2.43.0


From 17057a88c677afc280fff16f2b56e73ca5519d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 17/59] fix: refuse decimal reals of a reserved or different
 form than announced

---
 src/ber_types/Real.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ber_types/Real.cpp b/src/ber_types/Real.cpp
index 011a35b..dadec19 100644
--- a/src/ber_types/Real.cpp
+++ b/src/ber_types/Real.cpp
@@ -19,9 +19,11 @@ bool decode_real_decimal(absl::Span<const uint8_t> input, double& output) noexce
 {
     std::string iso_6093_value(reinterpret_cast<const char*>(&input[1]), input.length() - 1);
 
-    /* Check that string matches the iso 6093 NR1/NR2/NR3 forms */
-    if (std::regex_match(iso_6093_value, g_iso_6093_nr1) || std::regex_match(iso_6093_value, g_iso_6093_nr2) ||
-        std::regex_match(iso_6093_value, g_iso_6093_nr3))
+    /* X690 Clause 8.5.8: the first octet names the form, other values are reserved.
+     * Check that string matches the named iso 6093 NR1/NR2/NR3 form */
+    if ((input[0] == 1 && std::regex_match(iso_6093_value, g_iso_6093_nr1)) ||
+        (input[0] == 2 && std::regex_match(iso_6093_value, g_iso_6093_nr2)) ||
+        (input[0] == 3 && std::regex_match(iso_6093_value, g_iso_6093_nr3)))
     {
         /* Replace potential comma by a dot */
         std::replace(iso_6093_value.begin(), iso_6093_value.end(), ',', '.');
-- 
2.43.0


From 353ee424965d17fd7e7191ff2c60b2ae8e07a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 18/59] fix: refuse decimal reals without a number

---
 src/ber_types/Real.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ber_types/Real.cpp b/src/ber_types/Real.cpp
index dadec19..89934c8 100644
--- a/src/ber_types/Real.cpp
+++ b/src/ber_types/Real.cpp
@@ -17,6 +17,11 @@ const std::regex g_iso_6093_nr3{"^[ ]*[+-]?([0-9]+[\\.\\,]{1}[0-9]*|[0-9]*[\\.\\
  */
 bool decode_real_decimal(absl::Span<const uint8_t> input, double& output) noexcept
 {
+    if (input.length() < 2)
+    {
+        return false;
+    }
+
     std::string iso_6093_value(reinterpret_cast<const char*>(&input[1]), input.length() - 1);
 
     /* X690 Clause 8.5.8: the first octet names the form, other values are reserved.
-- 
2.43.0


From 4e0a6aa567c8e6a22af6ab07b8b3a698709c0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 19/59] fix: enumerated values can be assigned from another
 identifier

---
 include/fast_ber/ber_types/Enumerated.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Enumerated.hpp b/include/fast_ber/ber_types/Enumerated.hpp
index 394301d..72b2f2e 100644
--- a/include/fast_ber/ber_types/Enumerated.hpp
+++ b/include/fast_ber/ber_types/Enumerated.hpp
@@ -27,7 +27,11 @@ class Enumerated
     EnumeratedType value() const noexcept { return static_cast<EnumeratedType>(m_val.value()); }
 
     template <typename Identifier2>
-    Enumerated& operator=(const Enumerated<EnumeratedType, Identifier2>& rhs) noexcept;
+    Enumerated& operator=(const Enumerated<EnumeratedType, Identifier2>& rhs) noexcept
+    {
+        assign(rhs);
+        return *this;
+    }
     Enumerated& operator=(EnumeratedType rhs) noexcept
     {
         assign(rhs);
-- 
2.43.0


From 3f1f1b59d99a71639b53c88c5f8d094bf2bdfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 20/59] fix: an infinite real no longer equals every number

---
 include/fast_ber/ber_types/Real.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index e71b26d..60641d9 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -502,9 +502,9 @@ inline bool Real<Identifier>::operator==(const Real& rhs) const noexcept
 
     /* According to https://www.gnu.org/software/libc/manual/html_node/Infinity-and-NaN.html
      * In comparison operations, positive infinity is larger than all values except itself and NaN */
-    if (std::isinf(lhs_value) && std::isinf(rhs_value))
+    if (std::isinf(lhs_value) || std::isinf(rhs_value))
     {
-        return std::signbit(lhs_value) == std::signbit(rhs_value);
+        return lhs_value == rhs_value;
     }
 
     if (std::abs(lhs_value - rhs_value) <= std::numeric_limits<double>::epsilon())
-- 
2.43.0


From e3f4ade49da76ec34b435abb0d12d76f10102609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 21/59] fix: a dynamic optional can be compared with a value of
 its element type

---
 include/fast_ber/util/DynamicOptional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicOptional.hpp b/include/fast_ber/util/DynamicOptional.hpp
index ecd55b1..07c9fe8 100644
--- a/include/fast_ber/util/DynamicOptional.hpp
+++ b/include/fast_ber/util/DynamicOptional.hpp
@@ -96,7 +96,7 @@ class DynamicOptional
             return false;
         }
 
-        return *m_val == *rhs;
+        return *m_val == rhs;
     }
     bool operator!=(const DynamicOptional& rhs) const noexcept { return !(*this == rhs); }
     bool operator!=(const T& rhs) const noexcept { return !(*this == rhs); }
-- 
2.43.0


From d0d26c5043b88756dcc7833dc8df447f9a9502ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 22/59] fix: a component received with its default value equals
 its default and is not encoded

---
 include/fast_ber/ber_types/Default.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 8aa24e8..42f23ee 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -152,8 +152,13 @@ DecodeResult Default<T, DefaultValue>::decode(BerView input) noexcept
 {
     if (input.is_valid() && Identifier<T>::check_id_match(input.class_(), input.tag()))
     {
-        m_item = T();
-        return m_item->decode(input);
+        m_item              = T();
+        DecodeResult result = m_item->decode(input);
+        if (result.success && *m_item == m_default)
+        {
+            this->set_to_default();
+        }
+        return result;
     }
     else if (!input.is_valid())
     {
-- 
2.43.0


From 6d5e31a60ec3cd9d95325736ea516671fc46b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 23/59] fix: decoding a component with a default from an
 iterator moves past it

---
 include/fast_ber/ber_types/Default.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 42f23ee..4b78ebd 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -176,7 +176,9 @@ DecodeResult decode(BerViewIterator& input, Default<T, DefaultValue>& output) no
 {
     if (input->is_valid() && Identifier<T>::check_id_match(input->class_(), input->tag()))
     {
-        return output.decode(*input);
+        DecodeResult result = output.decode(*input);
+        ++input;
+        return result;
     }
     else
     {
-- 
2.43.0


From add3377aef0be72c2b555f0232000e50dcd92129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 24/59] fix: value() of a component with a default compiles,
 and types without value() may have a default

---
 include/fast_ber/ber_types/Default.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 4b78ebd..e7c3883 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -40,10 +40,14 @@ struct Default
     Default& operator=(const T2& val);
     Default& operator=(const char* val);
 
-    const T&              get() const noexcept { return is_default() ? m_default : *m_item; }
-    decltype(T{}.value()) value() const noexcept(T{}.value()) { return get()->value(); }
-    bool                  is_default() const noexcept { return !m_item; }
-    void                  set_to_default() noexcept { m_item = absl::nullopt; }
+    const T& get() const noexcept { return is_default() ? m_default : *m_item; }
+    template <typename U = T>
+    auto value() const -> decltype(std::declval<const U&>().value())
+    {
+        return get().value();
+    }
+    bool is_default() const noexcept { return !m_item; }
+    void set_to_default() noexcept { m_item = absl::nullopt; }
 
     size_t       encoded_length() const noexcept;
     EncodeResult encode(absl::Span<uint8_t> buffer) const noexcept;
-- 
2.43.0


From b11c72e1ec6dadc8a48797a0996106bf9100cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 25/59] fix: choices in dynamic storage can be assigned
 themselves or part of themselves, and used after a move

---
 include/fast_ber/util/DynamicVariant.hpp | 25 ++++++------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 0a998c0..ec5d005 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -334,10 +334,7 @@ class DynamicVariant
         : m_index(other.m_index), m_data(fast_ber::dynamic::visit(CopyVisitor{}, other))
     {
     }
-    DynamicVariant(DynamicVariant&& other) noexcept : m_index(std::move(other.m_index)), m_data(std::move(other.m_data))
-    {
-        other.m_data = nullptr;
-    }
+    DynamicVariant(DynamicVariant&& other) noexcept : DynamicVariant() { swap(other); }
 
     template <typename T, typename = absl::enable_if_t<!std::is_same<absl::decay_t<T>, DynamicVariant>::value>,
               typename = absl::enable_if_t<ExactlyOnce<AcceptedType<T&&>>::value &&
@@ -392,28 +389,18 @@ class DynamicVariant
         }
     }
 
+    // The new value is taken before the old one is destroyed, as it may be the old one, or part of it
     DynamicVariant& operator=(const DynamicVariant& other)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = other.m_index;
-        m_data  = fast_ber::dynamic::visit(CopyVisitor(), other);
-
+        DynamicVariant copy(other);
+        swap(copy);
         return *this;
     }
 
     DynamicVariant& operator=(DynamicVariant&& other) noexcept
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = other.m_index;
-        m_data  = other.m_data;
-
-        other.m_data = nullptr;
+        DynamicVariant moved(std::move(other));
+        swap(moved);
         return *this;
     }
 
-- 
2.43.0


From 33ad0e0e9fdcb786cbfa979d854a96a9a9015f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 26/59] fix: assigning an alternative to a choice in dynamic
 storage no longer moves from lvalues or reads its own destroyed content

---
 include/fast_ber/util/DynamicVariant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index ec5d005..3c73b96 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -411,12 +411,13 @@ class DynamicVariant
     DynamicVariant& operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
+        void* new_data = new AcceptedType<T>(std::forward<T>(t));
         if (!valueless_by_exception() && m_data != nullptr)
         {
             fast_ber::dynamic::visit(DeleteVisitor(), *this);
         }
         m_index = AcceptedIndex<T>::value;
-        m_data  = new AcceptedType<T>(std::move(t));
+        m_data  = new_data;
         return *this;
     }
 
-- 
2.43.0


From 25610b03e2b21e0ab627e02b47c2ffa75e657450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 27/59] fix: ordering of choices in dynamic storage

---
 include/fast_ber/util/DynamicVariant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 3c73b96..5da55d2 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -551,7 +551,7 @@ struct LessThan
     template <typename T>
     bool operator()(const T& lhs, const T& rhs)
     {
-        return lhs == rhs;
+        return lhs < rhs;
     }
 };
 
-- 
2.43.0


From 4bbaaf6337fd92860ba2a5b6daabed9680750982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 28/59] fix: a choice can be assigned part of its own content

---
 include/fast_ber/ber_types/Choice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 4a91fcc..660a177 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -413,7 +413,8 @@ struct Choice<Choices<Types...>, Identifier, storage>
     operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
-        m_base.template emplace<AcceptedType<T&&>>(std::forward<T&&>(t));
+        AcceptedType<T&&> value(std::forward<T&&>(t)); // t may be part of the alternative that is replaced
+        m_base.template emplace<AcceptedType<T&&>>(std::move(value));
         return *this;
     }
 
-- 
2.43.0


From 1cb8448195f4be7013fb674a891f3c8aa085e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 29/59] fix: get from an rvalue choice and emplace from an
 initializer list compile in dynamic storage

---
 include/fast_ber/util/DynamicVariant.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 5da55d2..e37e712 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -121,7 +121,7 @@ T&& get(DynamicVariant<Types...>&& v)
     {
         throw BadVariantAccess();
     }
-    return v.template value<T>();
+    return std::move(v.template value<T>());
 }
 
 template <class T, class... Types>
@@ -141,7 +141,7 @@ const T&& get(const DynamicVariant<Types...>&& v)
     {
         throw BadVariantAccess();
     }
-    return v.template value<T>();
+    return std::move(v.template value<T>());
 }
 
 template <std::size_t I, class... Types>
@@ -161,7 +161,7 @@ variant_alternative_t<I, DynamicVariant<Types...>>&& get(DynamicVariant<Types...
     {
         throw BadVariantAccess();
     }
-    return v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>();
+    return std::move(v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>());
 }
 
 template <std::size_t I, class... Types>
@@ -181,7 +181,7 @@ const variant_alternative_t<I, DynamicVariant<Types...>>&& get(const DynamicVari
     {
         throw BadVariantAccess();
     }
-    return v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>();
+    return std::move(v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>());
 }
 
 template <std::size_t I, class... Types>
@@ -446,7 +446,7 @@ class DynamicVariant
             fast_ber::dynamic::visit(DeleteVisitor(), *this);
         }
         m_index = AcceptedIndex<T>::value;
-        m_data  = new T(std::forward<Args>(il, args)...);
+        m_data  = new T(il, std::forward<Args>(args)...);
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -494,7 +494,7 @@ class DynamicVariant
         try
         {
             m_index = i;
-            m_data  = new ToType<i>(std::forward<Args>(il, args)...);
+            m_data  = new ToType<i>(il, std::forward<Args>(args)...);
         }
         catch (...)
         {
-- 
2.43.0


From 9b8dfdbe96117278ed520c9f97a01829d94223cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 30/59] fix: get from an rvalue choice, and by type from a
 mutable choice in dynamic storage

---
 include/fast_ber/ber_types/Choice.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 660a177..5705d94 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -185,7 +185,7 @@ T& get(Choice<Choices<Types...>, Identifier, StorageMode::static_>& v)
 template <class T, typename... Types, typename Identifier>
 T&& get(Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<T>(v.base());
+    return absl::get<T>(std::move(v.base()));
 }
 
 template <class T, typename... Types, typename Identifier>
@@ -197,7 +197,7 @@ const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&
 template <class T, typename... Types, typename Identifier>
 const T&& get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<T>(v.base());
+    return absl::get<T>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -211,7 +211,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::static_>>&&
 get(Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<I>(v.base());
+    return absl::get<I>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -225,15 +225,21 @@ template <std::size_t I, typename... Types, typename Identifier>
 const variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::static_>>&&
 get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<I>(v.base());
+    return absl::get<I>(std::move(v.base()));
 }
 
 template <class T, typename... Types, typename Identifier>
-T&& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
+T& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>& v)
 {
     return fast_ber::dynamic::get<T>(v.base());
 }
 
+template <class T, typename... Types, typename Identifier>
+T&& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
+{
+    return fast_ber::dynamic::get<T>(std::move(v.base()));
+}
+
 template <class T, typename... Types, typename Identifier>
 const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>& v)
 {
@@ -243,7 +249,7 @@ const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&
 template <class T, typename... Types, typename Identifier>
 const T&& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<T>(v.base());
+    return fast_ber::dynamic::get<T>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -257,7 +263,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::dynamic>>&&
 get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<I>(v.base());
+    return fast_ber::dynamic::get<I>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -271,7 +277,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 const variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::dynamic>>&&
 get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<I>(v.base());
+    return fast_ber::dynamic::get<I>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
-- 
2.43.0


From 17d9f4a8e67e9b4ed28915aa0f00b6448145b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 31/59] fix: a choice can be assigned a choice it contains

---
 include/fast_ber/ber_types/Choice.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 5705d94..61debe6 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -361,10 +361,17 @@ struct Choice<Choices<Types...>, Identifier, storage>
     ~Choice()                   = default;
     Choice(const Choice& other) = default;
     Choice(Choice&& other) noexcept : m_base(std::move(other.m_base)) {}
-    Choice& operator=(const Choice& other) = default;
-    Choice& operator                       =(Choice&& other) noexcept
+    // other may be part of the alternative that is replaced
+    Choice& operator=(const Choice& other)
     {
-        m_base = std::move(other.m_base);
+        typename Implementation::Type copy(other.m_base);
+        m_base = std::move(copy);
+        return *this;
+    }
+    Choice& operator=(Choice&& other) noexcept
+    {
+        typename Implementation::Type moved(std::move(other.m_base));
+        m_base = std::move(moved);
         return *this;
     };
 
-- 
2.43.0


From 9aae16c944838cd376315fa2a6e9334b46fb4d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 32/59] fix: refuse lists whose content is not entirely made of
 elements

---
 include/fast_ber/ber_types/SequenceOf.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/SequenceOf.hpp b/include/fast_ber/ber_types/SequenceOf.hpp
index d0ec79e..145a01c 100644
--- a/include/fast_ber/ber_types/SequenceOf.hpp
+++ b/include/fast_ber/ber_types/SequenceOf.hpp
@@ -128,7 +128,8 @@ DecodeResult SequenceOf<T, I, s>::decode(BerView input) noexcept
         return DecodeResult{false};
     }
 
-    BerView child_range = (I::depth() == 1) ? input : *input.begin();
+    BerView child_range     = (I::depth() == 1) ? input : *input.begin();
+    size_t  combined_length = 0;
     for (const BerView child : child_range)
     {
         this->emplace_back();
@@ -137,8 +138,11 @@ DecodeResult SequenceOf<T, I, s>::decode(BerView input) noexcept
         {
             return DecodeResult{false};
         }
+        combined_length += child.ber_length();
     }
-    return DecodeResult{true};
+
+    // Iteration stops at the first malformed child, all of the content must have been used
+    return DecodeResult{combined_length == child_range.content_length()};
 }
 
 template <typename T, typename I, StorageMode s1>
-- 
2.43.0


From 78c04b8466382b63aa2bcd1b229eb4155619155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 33/59] fix: containers stay invalid when copied or moved, and
 do not refer to memory that was moved away

---
 include/fast_ber/util/BerContainer.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index 09950d8..226a7bc 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -100,15 +100,24 @@ inline BerContainer::BerContainer(Construction input_construction, Class input_c
 
 inline BerContainer& BerContainer::operator=(const BerContainer& container) noexcept
 {
-    m_data = container.m_data;
-    m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    decode(container.view());
     return *this;
 }
 
 inline BerContainer& BerContainer::operator=(BerContainer&& container) noexcept
 {
-    m_data = std::move(container.m_data);
-    m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    if (!container.is_valid())
+    {
+        decode(container.view());
+    }
+    else if (this != &container)
+    {
+        m_data = std::move(container.m_data);
+        m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+
+        // The moved container no longer owns the memory its view refers to
+        container.decode(BerView());
+    }
     return *this;
 }
 
-- 
2.43.0


From 953d000a01c2522248cf5ba53b173391003272ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 34/59] fix: containers can be given part of their own content

---
 include/fast_ber/util/BerContainer.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index 226a7bc..289c888 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -123,13 +123,15 @@ inline BerContainer& BerContainer::operator=(BerContainer&& container) noexcept
 
 inline void BerContainer::assign_content(const absl::Span<const uint8_t> input_content) noexcept
 {
-    m_data.resize(15 + input_content.size());
-    m_data[0] = 0x00; // No identifier provided, use a tag of 0
+    // The input may be part of the current data
+    absl::InlinedVector<uint8_t, 100u> new_data(15 + input_content.size());
+    new_data[0] = 0x00; // No identifier provided, use a tag of 0
     size_t new_header_length =
-        1 + encode_length(absl::Span<uint8_t>(m_data.data() + 1, m_data.size() - 1), input_content.size());
+        1 + encode_length(absl::Span<uint8_t>(new_data.data() + 1, new_data.size() - 1), input_content.size());
 
-    m_data.resize(new_header_length + input_content.length());
-    std::copy(input_content.data(), input_content.end(), m_data.data() + new_header_length);
+    new_data.resize(new_header_length + input_content.length());
+    std::copy(input_content.data(), input_content.end(), new_data.data() + new_header_length);
+    m_data = std::move(new_data);
     m_view.assign(m_data, 0, new_header_length, input_content.size());
 
     assert(m_view.is_valid());
@@ -138,12 +140,14 @@ inline void BerContainer::assign_content(const absl::Span<const uint8_t> input_c
 inline void BerContainer::assign_content(Construction input_construction, Class input_class, Tag input_tag,
                                          absl::Span<const uint8_t> input_content) noexcept
 {
-    m_data.resize(30 + input_content.size());
-    size_t input_header_length = encode_header(absl::MakeSpan(m_data.data(), m_data.size()), input_construction,
+    // The input may be part of the current data
+    absl::InlinedVector<uint8_t, 100u> new_data(30 + input_content.size());
+    size_t input_header_length = encode_header(absl::MakeSpan(new_data.data(), new_data.size()), input_construction,
                                                input_class, input_tag, input_content.size());
 
-    m_data.resize(input_header_length + input_content.length());
-    std::copy(input_content.data(), input_content.end(), m_data.data() + input_header_length);
+    new_data.resize(input_header_length + input_content.length());
+    std::copy(input_content.data(), input_content.end(), new_data.data() + input_header_length);
+    m_data = std::move(new_data);
     m_view.assign(m_data, input_header_length, input_content.size());
 
     assert(m_view.is_valid());
@@ -181,7 +185,9 @@ inline DecodeResult BerContainer::decode(const BerView input_view) noexcept
         return DecodeResult{false};
     }
 
-    m_data.assign(input_view.ber().begin(), input_view.ber().end());
+    // The input may be part of the current data
+    absl::InlinedVector<uint8_t, 100u> new_data(input_view.ber().begin(), input_view.ber().end());
+    m_data = std::move(new_data);
     m_view.assign(absl::MakeSpan(m_data.data(), m_data.size()), input_view.tag(), input_view.header_length(),
                   input_view.content_length());
 
-- 
2.43.0


From 6c1641d32778f19bea0943c5236e3931ea42fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 35/59] fix: containers can be assigned from a view

---
 include/fast_ber/util/BerContainer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index 289c888..805f618 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -121,6 +121,12 @@ inline BerContainer& BerContainer::operator=(BerContainer&& container) noexcept
     return *this;
 }
 
+inline BerContainer& BerContainer::operator=(const BerView input_view) noexcept
+{
+    decode(input_view);
+    return *this;
+}
+
 inline void BerContainer::assign_content(const absl::Span<const uint8_t> input_content) noexcept
 {
     // The input may be part of the current data
-- 
2.43.0


From 2a1b81ac20820c52f1eb6eaadab9e4ed69909639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 36/59] fix: small containers can be given part of their own
 content

---
 include/fast_ber/util/SmallFixedIdBerContainer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/util/SmallFixedIdBerContainer.hpp b/include/fast_ber/util/SmallFixedIdBerContainer.hpp
index 7fe0545..b4562cd 100644
--- a/include/fast_ber/util/SmallFixedIdBerContainer.hpp
+++ b/include/fast_ber/util/SmallFixedIdBerContainer.hpp
@@ -136,7 +136,7 @@ DecodeResult SmallFixedIdBerContainer<Identifier, max_content_length>::decode_im
         return DecodeResult{false};
     }
 
-    std::memcpy(m_data.data() + m_header_length, input_view.content_data(), input_view.content_length());
+    std::memmove(m_data.data() + m_header_length, input_view.content_data(), input_view.content_length());
     set_content_length(input_view.content_length());
 
     return DecodeResult{true};
@@ -158,8 +158,8 @@ SmallFixedIdBerContainer<Identifier, max_content_length>::decode_impl(const BerV
         return DecodeResult{false};
     }
 
-    std::memcpy(m_data.data() + m_header_length, input_view.begin()->content_data(),
-                input_view.begin()->content_length());
+    std::memmove(m_data.data() + m_header_length, input_view.begin()->content_data(),
+                 input_view.begin()->content_length());
     set_content_length(input_view.begin()->content_length());
 
     return DecodeResult{true};
@@ -171,7 +171,7 @@ void SmallFixedIdBerContainer<Identifier, max_content_length>::assign_content(
 {
     assert(input_content.length() <= max_content_length);
 
-    std::memcpy(m_data.data() + m_header_length, input_content.data(), input_content.length());
+    std::memmove(m_data.data() + m_header_length, input_content.data(), input_content.length());
     set_content_length(input_content.length());
 
     assert(view().is_valid());
-- 
2.43.0


From 364e53a721d833249ea943f9aea793cf48d9d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:54 +0000
Subject: [PATCH 37/59] fix: small containers refuse 128 octets of content,
 whose length does not fit in one octet

---
 include/fast_ber/util/SmallFixedIdBerContainer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/util/SmallFixedIdBerContainer.hpp b/include/fast_ber/util/SmallFixedIdBerContainer.hpp
index b4562cd..c32291b 100644
--- a/include/fast_ber/util/SmallFixedIdBerContainer.hpp
+++ b/include/fast_ber/util/SmallFixedIdBerContainer.hpp
@@ -74,6 +74,10 @@ class SmallFixedIdBerContainer
     DecodeResult decode_impl(const BerView input_view, DoubleId<Identifier1, Identifier2>) noexcept;
     void         set_content_length(size_t length) noexcept;
 
+    // Every length is encoded in a single octet, which can hold at most 127
+    constexpr static size_t max_encodable_content_length =
+        max_content_length < max_possible_content_length ? max_content_length : max_possible_content_length - 1;
+
     constexpr static size_t                                   m_header_length = encoded_header_length(0, Identifier{});
     std::array<uint8_t, m_header_length + max_content_length> m_data          = [] {
         std::array<uint8_t, m_header_length + max_content_length> data{};
@@ -131,7 +135,7 @@ DecodeResult SmallFixedIdBerContainer<Identifier, max_content_length>::decode_im
                                                                                    Id<class_1, tag_1> id) noexcept
 {
     if (!(input_view.is_valid() && input_view.identifier() == id &&
-          input_view.construction() == Construction::primitive && input_view.content_length() <= max_content_length))
+          input_view.construction() == Construction::primitive && input_view.content_length() <= max_encodable_content_length))
     {
         return DecodeResult{false};
     }
@@ -152,7 +156,7 @@ SmallFixedIdBerContainer<Identifier, max_content_length>::decode_impl(const BerV
           input_view.construction() == Construction::constructed && input_view.begin()->is_valid() &&
           input_view.begin()->identifier() == Identifier2{} &&
           input_view.begin()->construction() == Construction::primitive &&
-          input_view.begin()->content_length() <= max_content_length))
+          input_view.begin()->content_length() <= max_encodable_content_length))
     {
 
         return DecodeResult{false};
-- 
2.43.0


From 0ba141d75c9ad2bceb67646d952470de5b9c2b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 38/59] fix: generated CHOICE decoders check that there is an
 element and its class before selecting an alternative

---
 src/compiler/EncodeDecode.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 16501f4..59a6aee 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -463,9 +463,16 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
             }
             block.add_line("content = *child;");
         }
+        block.add_line("else if (!content.is_valid())");
+        {
+            auto scope2 = CodeScope(block);
+            block.add_line(R"(FAST_BER_ERROR("Invalid packet when decoding choice [)" + name + R"(]");)");
+            block.add_line("return DecodeResult{false};");
+        }
 
         if (module.tagging_default == TaggingMode::automatic)
         {
+            block.add_line("if (content.class_() == " + to_string(Class::context_specific) + ")");
             block.add_line("switch (content.tag())");
             {
                 auto scope2 = CodeScope(block);
@@ -490,6 +497,7 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
                 if (std::any_of(outer_ids.begin(), outer_ids.end(),
                                 [class_](const Identifier& id) { return id.class_ == class_; }))
                 {
+                    block.add_line("if (content.class_() == " + to_string(class_) + ")");
                     block.add_line("switch (content.tag())");
                     auto        scope2 = CodeScope(block);
                     std::size_t i      = 0;
-- 
2.43.0


From 760c75ac5c82611845db0c30b5a493c9bd09a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 39/59] fix: apply tags, and automatic tagging, as the defining
 module's tagging environment prescribes

---
 src/compiler/EncodeDecode.cpp                 | 177 +++++--------
 src/compiler/GenerateChoice.cpp               |  14 +-
 src/compiler/Identifier.cpp                   | 235 ++++++++++++++----
 src/compiler/TypeAsString.cpp                 |  74 +++---
 .../fast_ber/compiler/CompilerTypes.hpp       |  14 +-
 .../include/fast_ber/compiler/Identifier.hpp  |   7 +
 src/compiler_main/CompilerMain.cpp            |   2 +
 7 files changed, 293 insertions(+), 230 deletions(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 59a6aee..2712427 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -219,93 +219,59 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                 block.add_line("while (iterator != end)");
                 {
                     auto scope2 = CodeScope(block);
-                    if (module.tagging_default == TaggingMode::automatic)
+                    for (Class class_ : {
+                             Class::universal,
+                             Class::application,
+                             Class::context_specific,
+                             Class::private_,
+                         })
                     {
-                        block.add_line("if (iterator->class_() == " + to_string(Class::context_specific) + ")");
-                        auto scope3 = CodeScope(block);
-                        {
-                            block.add_line("switch (iterator->tag())");
-                            auto        scope4 = CodeScope(block);
-                            std::size_t i      = 0;
-                            for (const ComponentType& component : collection.components)
-                            {
-                                block.add_line("case " + std::to_string(i) + ":");
-                                block.add_line("res = this->" + component.named_type.name + "." +
-                                               make_component_function("decode", component.named_type, module, tree) +
-                                               "(*iterator);");
-                                block.add_line("if (!res.success)");
-                                {
-                                    auto scope5 = CodeScope(block);
-                                    {
-                                        block.add_line(R"(FAST_BER_ERROR("failed to decode member [)" +
-                                                       component.named_type.name + R"(] of collection [)" + name +
-                                                       R"(]");)");
-                                        block.add_line("return res;");
-                                    }
-                                }
-                                block.add_line("++decode_counts[" + std::to_string(i) + "];");
-                                block.add_line("++iterator;");
-                                block.add_line("continue;");
-                                i++;
-                            }
-                        }
-                    }
-                    else
-                    {
-                        for (Class class_ : {
-                                 Class::universal,
-                                 Class::application,
-                                 Class::context_specific,
-                                 Class::private_,
-                             })
+                        if (std::any_of(collection.components.begin(), collection.components.end(),
+                                        [&](const ComponentType& component) {
+                                            const std::vector<Identifier>& outer_ids =
+                                                outer_identifiers(component.named_type.type, module, tree);
+                                            return std::any_of(
+                                                outer_ids.begin(), outer_ids.end(),
+                                                [class_](const Identifier& id) { return id.class_ == class_; });
+                                        }))
                         {
-                            if (std::any_of(collection.components.begin(), collection.components.end(),
-                                            [&](const ComponentType& component) {
-                                                const std::vector<Identifier>& outer_ids =
-                                                    outer_identifiers(component.named_type.type, module, tree);
-                                                return std::any_of(
-                                                    outer_ids.begin(), outer_ids.end(),
-                                                    [class_](const Identifier& id) { return id.class_ == class_; });
-                                            }))
-                            {
 
-                                block.add_line("if (iterator->class_() == " + to_string(class_) + ")");
-                                auto scope3 = CodeScope(block);
+                            block.add_line("if (iterator->class_() == " + to_string(class_) + ")");
+                            auto scope3 = CodeScope(block);
+                            {
+                                block.add_line("switch (iterator->tag())");
+                                auto        scope4 = CodeScope(block);
+                                std::size_t i      = 0;
+                                for (const ComponentType& component : collection.components)
                                 {
-                                    block.add_line("switch (iterator->tag())");
-                                    auto        scope4 = CodeScope(block);
-                                    std::size_t i      = 0;
-                                    for (const ComponentType& component : collection.components)
+                                    const std::vector<Identifier>& ids =
+                                        outer_identifiers(component.named_type.type, module, tree);
+                                    for (const Identifier& id : ids)
                                     {
-                                        const std::vector<Identifier>& ids =
-                                            outer_identifiers(component.named_type.type, module, tree);
-                                        for (const Identifier& id : ids)
+                                        if (id.class_ == class_)
                                         {
-                                            if (id.class_ == class_)
-                                            {
-                                                block.add_line("case " + std::to_string(id.tag_number) + ":");
-                                                block.add_line("res = this->" + component.named_type.name + "." +
-                                                               make_component_function("decode", component.named_type,
-                                                                                       module, tree) +
-                                                               "(*iterator);");
+                                            block.add_line("case " + std::to_string(id.tag_number) + ":");
+                                            block.add_line(
+                                                "res = this->" + component.named_type.name + "." +
+                                                make_component_function("decode", component.named_type, module, tree) +
+                                                "(*iterator);");
 
-                                                block.add_line("if (!res.success)");
+                                            block.add_line("if (!res.success)");
+                                            {
+                                                auto scope5 = CodeScope(block);
                                                 {
-                                                    auto scope5 = CodeScope(block);
-                                                    {
-                                                        block.add_line(R"(FAST_BER_ERROR("failed to decode member [)" +
-                                                                       component.named_type.name +
-                                                                       R"(] of collection [)" + name + R"(]");)");
-                                                        block.add_line("return res;");
-                                                    }
+                                                    block.add_line(R"(FAST_BER_ERROR("failed to decode member [)" +
+                                                                   component.named_type.name + R"(] of collection [)" +
+                                                                   name + R"(]");)");
+                                                    block.add_line("return res;");
                                                 }
-                                                block.add_line("++decode_counts[" + std::to_string(i) + "];");
-                                                block.add_line("++iterator;");
-                                                block.add_line("continue;");
                                             }
+                                            block.add_line("++decode_counts[" + std::to_string(i) + "];");
+                                            block.add_line("++iterator;");
+                                            block.add_line("continue;");
                                         }
-                                        i++;
                                     }
+                                    i++;
                                 }
                             }
                         }
@@ -470,52 +436,35 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
             block.add_line("return DecodeResult{false};");
         }
 
-        if (module.tagging_default == TaggingMode::automatic)
-        {
-            block.add_line("if (content.class_() == " + to_string(Class::context_specific) + ")");
-            block.add_line("switch (content.tag())");
-            {
-                auto scope2 = CodeScope(block);
-                for (std::size_t i = 0; i < choice.choices.size(); i++)
-                {
-                    block.add_line("case " + std::to_string(i) + ":");
-                    block.add_line("	return this->template emplace<" + std::to_string(i) + ">()." +
-                                   make_component_function("decode", choice.choices[i], module, tree) + "(content);");
-                }
-            }
-        }
-        else
+        for (Class class_ : {
+                 Class::universal,
+                 Class::application,
+                 Class::context_specific,
+                 Class::private_,
+             })
         {
-            for (Class class_ : {
-                     Class::universal,
-                     Class::application,
-                     Class::context_specific,
-                     Class::private_,
-                 })
+            const std::vector<Identifier>& outer_ids = outer_identifiers(choice, module, tree);
+            if (std::any_of(outer_ids.begin(), outer_ids.end(),
+                            [class_](const Identifier& id) { return id.class_ == class_; }))
             {
-                const std::vector<Identifier>& outer_ids = outer_identifiers(choice, module, tree);
-                if (std::any_of(outer_ids.begin(), outer_ids.end(),
-                                [class_](const Identifier& id) { return id.class_ == class_; }))
+                block.add_line("if (content.class_() == " + to_string(class_) + ")");
+                block.add_line("switch (content.tag())");
+                auto        scope2 = CodeScope(block);
+                std::size_t i      = 0;
+                for (const NamedType& named_type : choice.choices)
                 {
-                    block.add_line("if (content.class_() == " + to_string(class_) + ")");
-                    block.add_line("switch (content.tag())");
-                    auto        scope2 = CodeScope(block);
-                    std::size_t i      = 0;
-                    for (const NamedType& named_type : choice.choices)
+                    const std::vector<Identifier>& ids = outer_identifiers(named_type.type, module, tree);
+                    for (const Identifier& id : ids)
                     {
-                        const std::vector<Identifier>& ids = outer_identifiers(named_type.type, module, tree);
-                        for (const Identifier& id : ids)
+                        if (id.class_ == class_)
                         {
-                            if (id.class_ == class_)
-                            {
-                                block.add_line("case " + std::to_string(id.tag_number) + ":");
-                                block.add_line("	return this->template emplace<" + std::to_string(i) + ">()." +
-                                               make_component_function("decode", choice.choices[i], module, tree) +
-                                               "(content);");
-                            }
+                            block.add_line("case " + std::to_string(id.tag_number) + ":");
+                            block.add_line("	return this->template emplace<" + std::to_string(i) + ">()." +
+                                           make_component_function("decode", choice.choices[i], module, tree) +
+                                           "(content);");
                         }
-                        i++;
                     }
+                    i++;
                 }
             }
         }
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index bdf4e9e..8d60310 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -28,20 +28,10 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
     {
         CodeScope scope(block, true);
 
-        int64_t tag_counter = 0;
         for (const auto& named_type : choice.choices)
         {
-            if (module.tagging_default == TaggingMode::automatic)
-            {
-                std::string choice_id = Identifier(Class::context_specific, tag_counter++).name();
-                block.add_block(create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree,
-                                                       choice_id, false));
-            }
-            else
-            {
-                block.add_block(
-                    create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree, {}, false));
-            }
+            block.add_block(
+                create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree, {}, false));
         }
         block.add_line("using Storage = " + storage + ';');
         block.add_line();
diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index f495896..4c1dbc3 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -38,27 +38,10 @@ TaggingInfo identifier(const ChoiceType& choice, const Module& module, const Asn
     TaggingInfo info;
     info.is_default_tagged = true;
 
-    if (module.tagging_default == TaggingMode::automatic)
+    for (const NamedType& named_type : choice.choices)
     {
-        for (size_t i = 0; i < choice.choices.size(); i++)
-        {
-            if (is_prefixed(choice.choices[i].type))
-            {
-                info.choice_ids.push_back(outer_identifiers(choice.choices[i].type, module, tree)[0]);
-            }
-            else
-            {
-                info.choice_ids.push_back(Identifier{Class::context_specific, static_cast<int64_t>(i)});
-            }
-        }
-    }
-    else
-    {
-        for (const NamedType& named_type : choice.choices)
-        {
-            auto ids = outer_identifiers(named_type.type, module, tree);
-            info.choice_ids.insert(info.choice_ids.end(), ids.begin(), ids.end());
-        }
+        auto ids = outer_identifiers(named_type.type, module, tree);
+        info.choice_ids.insert(info.choice_ids.end(), ids.begin(), ids.end());
     }
 
     absl::flat_hash_set<Identifier> outer_ids;
@@ -171,31 +154,28 @@ TaggingInfo identifier(const PrefixedType& prefixed, const Module& current_modul
 }
 TaggingInfo identifier(const TaggedType& tagged_type, const Module& current_module, const Asn1Tree& tree)
 {
-    bool is_explicit = false;
-    if (tagged_type.tagging_mode == TaggingMode::explicit_)
-    {
-        is_explicit = true;
-    }
-    else if (tagged_type.tagging_mode == TaggingMode::implicit)
-    {
-        is_explicit = false;
-    }
-    else
+    const Identifier   tag(tagged_type.tag.class_, tagged_type.tag.tag_number);
+    const TaggingInfo& child_tag = identifier(tagged_type.type, current_module, tree);
+    if (!child_tag.choice_ids.empty())
     {
-        is_explicit = (current_module.tagging_default == TaggingMode::explicit_ ||
-                       current_module.tagging_default == TaggingMode::automatic);
+        // Types without a tag of their own (untagged choice) are always tagged explicitly
+        return TaggingInfo{{}, tag, {}, false};
     }
-
-    const TaggingInfo& child_tag = identifier(tagged_type.type, current_module, tree);
-    if (is_explicit || child_tag.outer_tag)
+    if (tagged_type.tagging_mode == TaggingMode::explicit_)
     {
-        return TaggingInfo{
-            Identifier(tagged_type.tag.class_, tagged_type.tag.tag_number), child_tag.inner_tag, {}, false};
+        if (child_tag.outer_tag)
+        {
+            throw std::runtime_error("More than two nested tags are not supported [" + tag.name() + "] [" +
+                                     child_tag.name() + "]");
+        }
+        return TaggingInfo{tag, child_tag.inner_tag, {}, false};
     }
-    else
+    if (child_tag.outer_tag)
     {
-        return TaggingInfo{{}, Identifier(tagged_type.tag.class_, tagged_type.tag.tag_number), {}, false};
+        // Implicit tag replaces the outermost tag
+        return TaggingInfo{tag, child_tag.inner_tag, {}, false};
     }
+    return TaggingInfo{{}, tag, {}, false};
 }
 TaggingInfo identifier(const TimeType&, const Module&, const Asn1Tree&)
 {
@@ -271,20 +251,10 @@ std::vector<Identifier> outer_identifiers(const CharacterStringType& type, const
 std::vector<Identifier> outer_identifiers(const ChoiceType& choice, const Module& module, const Asn1Tree& tree)
 {
     std::vector<Identifier> ids;
-    if (module.tagging_default == TaggingMode::automatic)
-    {
-        for (size_t i = 0; i < choice.choices.size(); i++)
-        {
-            ids.push_back(Identifier{Class::context_specific, static_cast<int64_t>(i)});
-        }
-    }
-    else
+    for (const NamedType& named_type : choice.choices)
     {
-        for (const NamedType& named_type : choice.choices)
-        {
-            auto child_ids = outer_identifiers(named_type.type, module, tree);
-            ids.insert(ids.end(), child_ids.begin(), child_ids.end());
-        }
+        auto child_ids = outer_identifiers(named_type.type, module, tree);
+        ids.insert(ids.end(), child_ids.begin(), child_ids.end());
     }
     return ids;
 }
@@ -438,3 +408,164 @@ std::vector<Identifier> outer_identifiers(const Type& type, const Module& curren
     OuterIdentifierHelper tag_helper{current_module, tree};
     return absl::visit(tag_helper, type);
 }
+
+namespace
+{
+template <typename Function>
+void for_each_child(Type& type, Function&& function)
+{
+    if (is_sequence(type) || is_set(type))
+    {
+        Collection& collection = is_sequence(type)
+                                     ? static_cast<Collection&>(absl::get<SequenceType>(absl::get<BuiltinType>(type)))
+                                     : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
+        for (ComponentType& component : collection.components)
+        {
+            function(component.components_of ? *component.components_of : component.named_type.type);
+        }
+    }
+    else if (is_choice(type))
+    {
+        for (NamedType& named_type : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
+        {
+            function(named_type.type);
+        }
+    }
+    else if (is_sequence_of(type) || is_set_of(type))
+    {
+        SequenceOfType& sequence = is_sequence_of(type) ? absl::get<SequenceOfType>(absl::get<BuiltinType>(type))
+                                                        : absl::get<SetOfType>(absl::get<BuiltinType>(type)).base();
+        function(sequence.has_name ? sequence.named_type->type : *sequence.type);
+    }
+    else if (is_prefixed(type))
+    {
+        function(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type);
+    }
+    else if (is_defined(type))
+    {
+        for (Type& parameter : absl::get<DefinedType>(type).parameters)
+        {
+            function(parameter);
+        }
+    }
+}
+
+void resolve_tagging_environment(Type& type, TaggingMode tagging_default)
+{
+    if (is_prefixed(type))
+    {
+        TaggedType& tagged = *absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type;
+        if (tagged.tagging_mode == TaggingMode::automatic)
+        {
+            tagged.tagging_mode =
+                (tagging_default == TaggingMode::explicit_) ? TaggingMode::explicit_ : TaggingMode::implicit;
+        }
+    }
+    else if (tagging_default == TaggingMode::automatic)
+    {
+        // Automatic tagging applies unless any of the types is tagged by the user
+        const auto is_tagged = [](const ComponentType& component) { return is_prefixed(component.named_type.type); };
+        if (is_sequence(type))
+        {
+            Collection& collection = absl::get<SequenceType>(absl::get<BuiltinType>(type));
+            collection.automatic_tagging =
+                std::none_of(collection.components.begin(), collection.components.end(), is_tagged);
+        }
+        else if (is_set(type))
+        {
+            Collection& collection = absl::get<SetType>(absl::get<BuiltinType>(type));
+            collection.automatic_tagging =
+                std::none_of(collection.components.begin(), collection.components.end(), is_tagged);
+        }
+        else if (is_choice(type))
+        {
+            ChoiceType& choice       = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+            choice.automatic_tagging = std::none_of(choice.choices.begin(), choice.choices.end(),
+                                                    [](const NamedType& named) { return is_prefixed(named.type); });
+        }
+    }
+
+    for_each_child(type, [&](Type& child) { resolve_tagging_environment(child, tagging_default); });
+}
+
+Type automatically_tagged(const Type& type, int tag_number)
+{
+    return BuiltinType{PrefixedType(TaggedType{Tag{Class::context_specific, tag_number}, TaggingMode::implicit, type})};
+}
+
+void apply_automatic_tags(Type& type)
+{
+    for_each_child(type, [&](Type& child) { apply_automatic_tags(child); });
+
+    int tag_number = 0;
+    if (is_sequence(type) || is_set(type))
+    {
+        Collection& collection = is_sequence(type)
+                                     ? static_cast<Collection&>(absl::get<SequenceType>(absl::get<BuiltinType>(type)))
+                                     : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
+        if (collection.automatic_tagging)
+        {
+            for (ComponentType& component : collection.components)
+            {
+                component.named_type.type = automatically_tagged(component.named_type.type, tag_number++);
+            }
+            collection.automatic_tagging = false;
+        }
+    }
+    else if (is_choice(type))
+    {
+        ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+        if (choice.automatic_tagging)
+        {
+            for (NamedType& named_type : choice.choices)
+            {
+                named_type.type = automatically_tagged(named_type.type, tag_number++);
+            }
+            choice.automatic_tagging = false;
+        }
+    }
+}
+} // namespace
+
+void resolve_tagging_environment(Asn1Tree& tree)
+{
+    for (Module& module : tree.modules)
+    {
+        for (Assignment& assignment : module.assignments)
+        {
+            if (is_type(assignment))
+            {
+                resolve_tagging_environment(type(assignment), module.tagging_default);
+            }
+            else if (is_value(assignment))
+            {
+                resolve_tagging_environment(value(assignment).type, module.tagging_default);
+            }
+            else if (absl::holds_alternative<ObjectClassAssignment>(assignment.specific))
+            {
+                for (ClassField& field : object_class(assignment).fields)
+                {
+                    if (absl::holds_alternative<FixedTypeValueField>(field.field))
+                    {
+                        resolve_tagging_environment(absl::get<FixedTypeValueField>(field.field).type,
+                                                    module.tagging_default);
+                    }
+                }
+            }
+        }
+    }
+}
+
+void apply_automatic_tags(Asn1Tree& tree)
+{
+    for (Module& module : tree.modules)
+    {
+        for (Assignment& assignment : module.assignments)
+        {
+            if (is_type(assignment))
+            {
+                apply_automatic_tags(type(assignment));
+            }
+        }
+    }
+}
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index cc443b4..2257caa 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -47,22 +47,11 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
             block.add_line();
         }
 
-        int64_t tag_counter = 0;
-
         // Define child types
         for (const ComponentType& component : collection.components)
         {
-            if (module.tagging_default == TaggingMode::automatic)
-            {
-                std::string id = Identifier(Class::context_specific, tag_counter++).name();
-                block.add_block(create_type_assignment(make_type_name(component.named_type.name, type_name),
-                                                       component.named_type.type, module, tree, id, false));
-            }
-            else
-            {
-                block.add_block(create_type_assignment(make_type_name(component.named_type.name, type_name),
-                                                       component.named_type.type, module, tree, {}, false));
-            }
+            block.add_block(create_type_assignment(make_type_name(component.named_type.name, type_name),
+                                                   component.named_type.type, module, tree, {}, false));
         }
         if (!collection.components.empty())
         {
@@ -230,35 +219,31 @@ std::string type_as_string(const RelativeOIDType& type, const Module& module, co
 }
 void check_valid(const SequenceType& sequence, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
-
-    if (module.tagging_default != TaggingMode::automatic)
+    std::vector<Identifier>     previous_optional_ids;
+    absl::optional<std::string> previous_optional_type;
+    for (const ComponentType& component : sequence.components)
     {
-        std::vector<Identifier>     previous_optional_ids;
-        absl::optional<std::string> previous_optional_type;
-        for (const ComponentType& component : sequence.components)
+        if (component.is_optional || component.default_value)
         {
-            if (component.is_optional || component.default_value)
-            {
-                auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
+            auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
 
-                for (const Identifier& previous_optional_id : previous_optional_ids)
+            for (const Identifier& previous_optional_id : previous_optional_ids)
+            {
+                if (previous_optional_type && previous_optional_id == outer_ids.front())
                 {
-                    if (previous_optional_type && previous_optional_id == outer_ids.front())
-                    {
-                        throw std::runtime_error("SEQUENCE " + type_name +
-                                                 " is ambiguous, two optional values in a row with same ID [" +
-                                                 component.named_type.name + "] [" + *previous_optional_type + "] [" +
-                                                 outer_ids.front().name() + "]");
-                    }
+                    throw std::runtime_error("SEQUENCE " + type_name +
+                                             " is ambiguous, two optional values in a row with same ID [" +
+                                             component.named_type.name + "] [" + *previous_optional_type + "] [" +
+                                             outer_ids.front().name() + "]");
                 }
-                previous_optional_ids  = std::move(outer_ids);
-                previous_optional_type = component.named_type.name;
-            }
-            else
-            {
-                previous_optional_type = absl::nullopt;
-                previous_optional_ids.clear();
             }
+            previous_optional_ids  = std::move(outer_ids);
+            previous_optional_type = component.named_type.name;
+        }
+        else
+        {
+            previous_optional_type = absl::nullopt;
+            previous_optional_ids.clear();
         }
     }
 }
@@ -287,20 +272,17 @@ std::string type_as_string(const SequenceOfType& sequence, const Module&, const
 }
 void check_valid(const SetType& set, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
-    if (module.tagging_default != TaggingMode::automatic)
+    absl::flat_hash_set<Identifier> ids;
+    for (const ComponentType& component : set.components)
     {
-        absl::flat_hash_set<Identifier> ids;
-        for (const ComponentType& component : set.components)
+        auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
+        for (const Identifier& id : outer_ids)
         {
-            auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
-            for (const Identifier& id : outer_ids)
+            if (ids.count(id) > 0)
             {
-                if (ids.count(id) > 0)
-                {
-                    throw std::runtime_error("Identifier " + id.name() + " occurs more than once in SET " + type_name);
-                }
-                ids.insert(id);
+                throw std::runtime_error("Identifier " + id.name() + " occurs more than once in SET " + type_name);
             }
+            ids.insert(id);
         }
     }
 }
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 0deba40..1eb09f3 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -327,7 +327,8 @@ struct RelativeOIDType
 struct Collection
 {
     ComponentTypeList components;
-    bool              allow_extensions = false;
+    bool              allow_extensions  = false;
+    bool              automatic_tagging = false; // Components are to be tagged [0], [1], ...
 };
 struct SequenceType : Collection
 {
@@ -406,12 +407,12 @@ struct SequenceOfType
 struct SetOfType : SequenceOfType
 {
     using SequenceOfType::SequenceOfType;
-    using SequenceOfType::operator  =;
-    SetOfType()                     = default;
-    SetOfType(const SetOfType& rhs) = default;
-    SetOfType(SetOfType&& rhs)      = default;
+    using SequenceOfType::operator=;
+    SetOfType()                                = default;
+    SetOfType(const SetOfType& rhs)            = default;
+    SetOfType(SetOfType&& rhs)                 = default;
     SetOfType& operator=(const SetOfType& rhs) = default;
-    SetOfType& operator=(SetOfType&& rhs) = default;
+    SetOfType& operator=(SetOfType&& rhs)      = default;
 
     SetOfType&            base() { return *this; }
     SequenceOfType const& base() const { return *this; }
@@ -421,6 +422,7 @@ struct ChoiceType
 {
     std::vector<NamedType> choices;
     StorageMode            storage;
+    bool                   automatic_tagging = false; // Alternatives are to be tagged [0], [1], ...
 };
 
 struct DefinedValue
diff --git a/src/compiler/include/fast_ber/compiler/Identifier.hpp b/src/compiler/include/fast_ber/compiler/Identifier.hpp
index d16d7b1..738ba8d 100644
--- a/src/compiler/include/fast_ber/compiler/Identifier.hpp
+++ b/src/compiler/include/fast_ber/compiler/Identifier.hpp
@@ -75,3 +75,10 @@ std::vector<Identifier> outer_identifiers(const UTCTimeType&, const Module&, con
 std::vector<Identifier> outer_identifiers(const DefinedType&, const Module&, const Asn1Tree&);
 std::vector<Identifier> outer_identifiers(const BuiltinType& type, const Module&, const Asn1Tree&);
 std::vector<Identifier> outer_identifiers(const Type& type, const Module&, const Asn1Tree&);
+
+// Fix how each tag is applied (implicit or explicit), and which types are tagged automatically, according to the module
+// in which they are defined
+void resolve_tagging_environment(Asn1Tree& tree);
+
+// Add the tags which automatic tagging implies, after COMPONENTS OF has been expanded
+void apply_automatic_tags(Asn1Tree& tree);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 3728a0f..90eb306 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -261,6 +261,7 @@ int main(int argc, char** argv)
             return -1;
         }
 
+        resolve_tagging_environment(context.asn1_tree);
         resolve_parameters(context.asn1_tree);
         context.asn1_tree.modules = reorder_modules(context.asn1_tree.modules);
 
@@ -274,6 +275,7 @@ int main(int argc, char** argv)
 
         resolve_components_of(context.asn1_tree);
         resolve_object_classes(context.asn1_tree);
+        apply_automatic_tags(context.asn1_tree);
 
         for (auto& module : context.asn1_tree.modules)
         {
-- 
2.43.0


From fe964a83557bdcf7a9a6caf436f29db49d968fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 40/59] fix: give enumerators the numbers X.680 assigns, and
 keep numbers given by reference and the kind of string defaults

---
 src/compiler/CompilerTypes.cpp                |  17 ++
 src/compiler/Identifier.cpp                   |  40 +---
 src/compiler/ResolveType.cpp                  | 194 +++++++++++++++++-
 src/compiler/asn_compiler.yacc                |  20 +-
 src/compiler/autogen_copy/asn_compiler.hpp    |  20 +-
 .../fast_ber/compiler/CompilerTypes.hpp       |   5 +
 .../include/fast_ber/compiler/ResolveType.hpp |  14 ++
 .../include/fast_ber/compiler/Visit.hpp       |  40 ++++
 src/compiler_main/CompilerMain.cpp            |   1 +
 9 files changed, 291 insertions(+), 60 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 703f2f8..20b837c 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -274,6 +274,23 @@ bool is_enumerated(const Type& type)
            absl::holds_alternative<EnumeratedType>(absl::get<BuiltinType>(type));
 }
 
+bool is_named_item(const Type& type, const std::string& name)
+{
+    if (is_enumerated(type))
+    {
+        const EnumeratedType& enumerated = absl::get<EnumeratedType>(absl::get<BuiltinType>(type));
+        return std::any_of(enumerated.enum_values.begin(), enumerated.enum_values.end(),
+                           [&](const EnumerationValue& item) { return item.name == name; });
+    }
+    if (is_integer(type))
+    {
+        const IntegerType& integer = absl::get<IntegerType>(absl::get<BuiltinType>(type));
+        return std::any_of(integer.named_numbers.begin(), integer.named_numbers.end(),
+                           [&](const NamedNumber& item) { return item.name == name; });
+    }
+    return false;
+}
+
 bool is_choice(const Type& type)
 {
     return absl::holds_alternative<BuiltinType>(type) &&
diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index 4c1dbc3..7213a7a 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -1,5 +1,6 @@
 #include "fast_ber/compiler/Identifier.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
+#include "fast_ber/compiler/Visit.hpp"
 
 #include "absl/container/flat_hash_set.h"
 
@@ -411,45 +412,6 @@ std::vector<Identifier> outer_identifiers(const Type& type, const Module& curren
 
 namespace
 {
-template <typename Function>
-void for_each_child(Type& type, Function&& function)
-{
-    if (is_sequence(type) || is_set(type))
-    {
-        Collection& collection = is_sequence(type)
-                                     ? static_cast<Collection&>(absl::get<SequenceType>(absl::get<BuiltinType>(type)))
-                                     : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
-        for (ComponentType& component : collection.components)
-        {
-            function(component.components_of ? *component.components_of : component.named_type.type);
-        }
-    }
-    else if (is_choice(type))
-    {
-        for (NamedType& named_type : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
-        {
-            function(named_type.type);
-        }
-    }
-    else if (is_sequence_of(type) || is_set_of(type))
-    {
-        SequenceOfType& sequence = is_sequence_of(type) ? absl::get<SequenceOfType>(absl::get<BuiltinType>(type))
-                                                        : absl::get<SetOfType>(absl::get<BuiltinType>(type)).base();
-        function(sequence.has_name ? sequence.named_type->type : *sequence.type);
-    }
-    else if (is_prefixed(type))
-    {
-        function(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type);
-    }
-    else if (is_defined(type))
-    {
-        for (Type& parameter : absl::get<DefinedType>(type).parameters)
-        {
-            function(parameter);
-        }
-    }
-}
-
 void resolve_tagging_environment(Type& type, TaggingMode tagging_default)
 {
     if (is_prefixed(type))
diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index 18cdd19..a9411a5 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -1,5 +1,9 @@
 #include "fast_ber/compiler/ResolveType.hpp"
 
+#include "fast_ber/compiler/Visit.hpp"
+
+#include <unordered_set>
+
 Module& find_module(Asn1Tree& tree, const std::string& module_reference)
 {
     for (Module& module : tree.modules)
@@ -184,7 +188,7 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
             if (is_defined(prefixed.tagged_type->type))
             {
                 NamedTypeAndModule const& inner = resolve_type_and_module(
-                    tree, current_module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
+                    tree, working_module.module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
                 prefixed.tagged_type->type = inner.type.type;
                 return {NamedType{assignment.name, prefixed}, inner.module};
             }
@@ -218,6 +222,74 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
     return {type_info, find_module(tree, current_module_reference)};
 }
 
+NamedType resolve_base_type(const Asn1Tree& tree, const Module& module, const NamedType& named_type)
+{
+    NamedType     base           = named_type;
+    const Module* current_module = &module;
+    size_t        depth          = 0;
+    while (true)
+    {
+        if (is_defined(base.type))
+        {
+            if (depth++ > 1000)
+            {
+                throw std::runtime_error("Circular type definition " + named_type.name);
+            }
+            const DefinedType defined    = absl::get<DefinedType>(base.type);
+            const Assignment& assignment = resolve(tree, current_module->module_reference, defined);
+            if (!is_type(assignment))
+            {
+                throw std::runtime_error("Defined must be a type in this context! " + defined.type_reference);
+            }
+            current_module = &resolve_module(tree, current_module->module_reference, defined);
+            base =
+                NamedType{"::fast_ber::" + current_module->module_reference + "::" + assignment.name, type(assignment)};
+        }
+        else if (is_prefixed(base.type))
+        {
+            Type inner = absl::get<PrefixedType>(absl::get<BuiltinType>(base.type)).tagged_type->type;
+            base.type  = std::move(inner);
+        }
+        else
+        {
+            return base;
+        }
+    }
+}
+
+ValueAndModule find_value(const Asn1Tree& tree, const Module& module, const std::string& reference)
+{
+    const Module* current_module = &module;
+    for (size_t depth = 0; depth <= tree.modules.size(); depth++)
+    {
+        for (const Assignment& assignment : current_module->assignments)
+        {
+            if (assignment.name == reference && is_value(assignment))
+            {
+                return {&value(assignment), current_module};
+            }
+        }
+
+        const Module* next_module = nullptr;
+        for (const Import& import : current_module->imports)
+        {
+            for (const std::string& imported_value : import.imported_values)
+            {
+                if (imported_value == reference)
+                {
+                    next_module = &find_module(tree, import.module_reference);
+                }
+            }
+        }
+        if (!next_module)
+        {
+            break;
+        }
+        current_module = next_module;
+    }
+    return {nullptr, nullptr};
+}
+
 NamedType resolve_type(const Asn1Tree& tree, const std::string& current_module_reference,
                        const DefinedType& original_defined)
 {
@@ -291,3 +363,123 @@ bool is_a_parameter(const std::string& reference, const std::vector<Parameter>&
 
     return std::find_if(parameters.begin(), parameters.end(), parameter_match) != parameters.end();
 }
+
+int64_t resolve_number(const Asn1Tree& tree, const Module& module, const std::string& reference, size_t depth = 0)
+{
+    const ValueAndModule found = find_value(tree, module, reference);
+    if (found.value && absl::holds_alternative<int64_t>(found.value->value.value_selection))
+    {
+        return absl::get<int64_t>(found.value->value.value_selection);
+    }
+    if (found.value && absl::holds_alternative<DefinedValue>(found.value->value.value_selection) && depth < 1000)
+    {
+        const std::string& next = absl::get<DefinedValue>(found.value->value.value_selection).reference;
+        return resolve_number(tree, *found.module, next, depth + 1);
+    }
+    throw std::runtime_error("Reference to undefined number: " + module.module_reference + "." + reference);
+}
+
+void number_enumerators(EnumeratedType& enumerated)
+{
+    const auto root_end = enumerated.enum_values.begin() + enumerated.root_size.value_or(enumerated.enum_values.size());
+    std::unordered_set<std::string> names;
+    std::unordered_set<int64_t>     used;
+
+    const auto use = [&](int64_t number) {
+        if (!used.insert(number).second)
+        {
+            throw std::runtime_error("Number " + std::to_string(number) + " occurs more than once in ENUMERATED");
+        }
+    };
+
+    for (const EnumerationValue& item : enumerated.enum_values)
+    {
+        if (!names.insert(item.name).second)
+        {
+            throw std::runtime_error("Name " + item.name + " occurs more than once in ENUMERATED");
+        }
+    }
+
+    // Values without a number are given the smallest non-negative number which is not used in the root
+    for (auto iter = enumerated.enum_values.begin(); iter != root_end; iter++)
+    {
+        if (iter->value)
+        {
+            use(*iter->value);
+        }
+    }
+    int64_t next = 0;
+    for (auto iter = enumerated.enum_values.begin(); iter != root_end; iter++)
+    {
+        if (!iter->value)
+        {
+            while (used.count(next) > 0)
+            {
+                next++;
+            }
+            iter->value = next;
+            use(next);
+        }
+    }
+
+    // Values after the extension marker are in ascending order
+    next = 0;
+    for (auto iter = root_end; iter != enumerated.enum_values.end(); iter++)
+    {
+        if (!iter->value)
+        {
+            while (used.count(next) > 0)
+            {
+                next++;
+            }
+            iter->value = next;
+        }
+        use(*iter->value);
+        next = *iter->value + 1;
+    }
+}
+
+void resolve_numbers(const Asn1Tree& tree, const Module& module, Type& type)
+{
+    if (is_enumerated(type))
+    {
+        EnumeratedType& enumerated = absl::get<EnumeratedType>(absl::get<BuiltinType>(type));
+        for (EnumerationValue& item : enumerated.enum_values)
+        {
+            if (!item.reference.empty())
+            {
+                item.value = resolve_number(tree, module, item.reference);
+            }
+        }
+        number_enumerators(enumerated);
+    }
+    else if (is_integer(type))
+    {
+        for (NamedNumber& item : absl::get<IntegerType>(absl::get<BuiltinType>(type)).named_numbers)
+        {
+            if (!item.reference.empty())
+            {
+                item.number = resolve_number(tree, module, item.reference);
+            }
+        }
+    }
+    for_each_child(type, [&](Type& child) { resolve_numbers(tree, module, child); });
+}
+
+void resolve_numbers(Asn1Tree& tree)
+{
+    for (Module& module : tree.modules)
+    {
+        for (Assignment& assignment : module.assignments)
+        {
+            if (is_type(assignment))
+            {
+                resolve_numbers(tree, module, type(assignment));
+            }
+            else if (is_value(assignment))
+            {
+                resolve_numbers(tree, module, value(assignment).type);
+            }
+        }
+    }
+}
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index b4d5d7f..d58ac99 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1036,11 +1036,11 @@ NamedType:
 
 ValueWithoutTypeIdentifier:
     BooleanValue
-    { std::cerr << std::string("Warning: Unhandled field: BooleanValue\n"); }
+    { $$.value_selection = $1; }
 |   IRIValue
     { std::cerr << std::string("Warning: Unhandled field: IRIValue\n"); }
 |   ASN_NULL
-    { std::cerr << std::string("Warning: Unhandled field: ASN_NULL\n"); }
+    { $$.value_selection = NullValue{}; }
 |   TimeValue
     { std::cerr << std::string("Warning: Unhandled field: TimeValue\n"); }
 |   bstring
@@ -1054,7 +1054,7 @@ ValueWithoutTypeIdentifier:
 |   DefinedValue
     { $$.value_selection = $1; }
 |   GENERIC_IDENTIFIER_LOWERCASE "(" number ")"
-    { $$.value_selection = NamedNumber{$1, $3}; }
+    { $$.value_selection = NamedNumber{$1, $3, {}}; }
 |   ":"
 |   SignedNumber
     { $$.value_selection = $1; }
@@ -1135,9 +1135,9 @@ NamedNumberList:
 
 NamedNumber:
     identifier "(" SignedNumber ")"
-    { $$ = NamedNumber{ $1, $3 }; }
+    { $$ = NamedNumber{ $1, $3, {} }; }
 |   identifier "(" DefinedValue ")"
-    { $$ = NamedNumber{ $1, 0 }; }
+    { $$ = NamedNumber{ $1, 0, $3.reference }; }
 
 SignedNumber:
     number
@@ -1158,7 +1158,7 @@ Enumerations:
       $$.accept_anything = true; }
 |   Enumeration "," ELIPSIS ExceptionSpec "," Enumeration
     { $$ = $1;
-      $$.accept_anything = true;
+      $$.accept_anything = true; $$.root_size = $$.enum_values.size();
       $$.enum_values.insert($$.enum_values.end(), $6.enum_values.begin(), $6.enum_values.end()); }
 |   ELIPSIS ExceptionSpec
 
@@ -1173,7 +1173,7 @@ EnumerationItem:
     { $$.name  = $1; }
 |   NamedNumber
     { $$.name  = $1.name;
-      $$.value = $1.number; }
+      $$.value = $1.number; $$.reference = $1.reference; }
 
 EnumeratedValue:
     identifier;
@@ -1617,11 +1617,11 @@ SingleValue:
 |   TimeValue
     { $$.value_selection = $1; }
 |   bstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = BitStringValue{$1}; }
 |   hstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = HexStringValue{$1}; }
 |   cstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = CharStringValue{$1}; }
 |   GENERIC_IDENTIFIER_UPPERCASE
     { $$.value_selection = $1; }
 |   DefinedValue
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 1a941a2..4836f13 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -8763,7 +8763,7 @@ namespace yy {
 
   case 249:
 #line 1039 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { std::cerr << std::string("Warning: Unhandled field: BooleanValue\n"); }
+    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < BooleanValue > (); }
 #line 8766 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
@@ -8775,7 +8775,7 @@ namespace yy {
 
   case 251:
 #line 1043 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { std::cerr << std::string("Warning: Unhandled field: ASN_NULL\n"); }
+    { yylhs.value.as < Value > ().value_selection = NullValue{}; }
 #line 8778 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
@@ -8817,7 +8817,7 @@ namespace yy {
 
   case 258:
 #line 1057 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < Value > ().value_selection = NamedNumber{yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > ()}; }
+    { yylhs.value.as < Value > ().value_selection = NamedNumber{yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > (), {}}; }
 #line 8820 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
@@ -8943,13 +8943,13 @@ namespace yy {
 
   case 291:
 #line 1138 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > () }; }
+    { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > (), {} }; }
 #line 8946 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
   case 292:
 #line 1140 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), 0 }; }
+    { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), 0, yystack_[1].value.as < DefinedValue > ().reference }; }
 #line 8952 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
@@ -8988,7 +8988,7 @@ namespace yy {
   case 298:
 #line 1160 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
     { yylhs.value.as < EnumeratedType > () = yystack_[5].value.as < EnumeratedType > ();
-      yylhs.value.as < EnumeratedType > ().accept_anything = true;
+      yylhs.value.as < EnumeratedType > ().accept_anything = true; yylhs.value.as < EnumeratedType > ().root_size = yylhs.value.as < EnumeratedType > ().enum_values.size();
       yylhs.value.as < EnumeratedType > ().enum_values.insert(yylhs.value.as < EnumeratedType > ().enum_values.end(), yystack_[0].value.as < EnumeratedType > ().enum_values.begin(), yystack_[0].value.as < EnumeratedType > ().enum_values.end()); }
 #line 8992 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
@@ -9014,7 +9014,7 @@ namespace yy {
   case 303:
 #line 1175 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < NamedNumber > ().name;
-      yylhs.value.as < EnumerationValue > ().value = yystack_[0].value.as < NamedNumber > ().number; }
+      yylhs.value.as < EnumerationValue > ().value = yystack_[0].value.as < NamedNumber > ().number; yylhs.value.as < EnumerationValue > ().reference = yystack_[0].value.as < NamedNumber > ().reference; }
 #line 9017 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
@@ -9545,19 +9545,19 @@ namespace yy {
 
   case 452:
 #line 1620 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
 #line 9548 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
   case 453:
 #line 1622 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
 #line 9554 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
   case 454:
 #line 1624 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
 #line 9560 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 1eb09f3..03360af 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -53,11 +53,13 @@ struct NamedNumber
 {
     std::string name;
     int64_t     number;
+    std::string reference; // The number may be given as a reference to a value
 };
 struct EnumerationValue
 {
     std::string             name;
     absl::optional<int64_t> value;
+    std::string             reference;
 };
 
 struct AnyType
@@ -285,6 +287,7 @@ struct EnumeratedType
 {
     std::vector<EnumerationValue> enum_values;
     bool                          accept_anything;
+    absl::optional<size_t>        root_size; // Number of values before the extension marker, if there are any after it
 };
 struct ExternalType
 {
@@ -741,6 +744,8 @@ bool is_sequence(const Type& type);
 bool is_set_of(const Type& type);
 bool is_sequence_of(const Type& type);
 bool is_enumerated(const Type& type);
+// Is the name an enumerator or named number of the type
+bool is_named_item(const Type& type, const std::string& name);
 bool is_choice(const Type& type);
 bool is_prefixed(const Type& type);
 bool is_integer(const Type& type);
diff --git a/src/compiler/include/fast_ber/compiler/ResolveType.hpp b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
index e038b8b..5ea304e 100644
--- a/src/compiler/include/fast_ber/compiler/ResolveType.hpp
+++ b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
@@ -27,6 +27,20 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
 NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::string& current_module_reference,
                                            const NamedType& type);
 
+// Give a number to each enumerator, and to each number which is given as a reference
+void resolve_numbers(Asn1Tree& tree);
+
+// The type without its tags and references. If reached by reference, the name is fully qualified
+NamedType resolve_base_type(const Asn1Tree& tree, const Module& module, const NamedType& type);
+
+// Finds a value by name, looking through the imports of the module. Returns nullptr if there is no such value
+struct ValueAndModule
+{
+    const ValueAssignment* value;
+    const Module*          module;
+};
+ValueAndModule find_value(const Asn1Tree& tree, const Module& module, const std::string& reference);
+
 NamedType resolve_type(const Asn1Tree& tree, const std::string& current_module_reference,
                        const DefinedType& original_defined);
 NamedType resolve_type(const Asn1Tree& tree, const std::string& current_module_reference, const NamedType& type);
diff --git a/src/compiler/include/fast_ber/compiler/Visit.hpp b/src/compiler/include/fast_ber/compiler/Visit.hpp
index b4e1704..3dd4b6c 100644
--- a/src/compiler/include/fast_ber/compiler/Visit.hpp
+++ b/src/compiler/include/fast_ber/compiler/Visit.hpp
@@ -79,3 +79,43 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Assi
     }
     return {};
 }
+
+// Calls a function with every type which is written directly within a type
+template <typename Function>
+void for_each_child(Type& type, Function&& function)
+{
+    if (is_sequence(type) || is_set(type))
+    {
+        Collection& collection = is_sequence(type)
+                                     ? static_cast<Collection&>(absl::get<SequenceType>(absl::get<BuiltinType>(type)))
+                                     : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
+        for (ComponentType& component : collection.components)
+        {
+            function(component.components_of ? *component.components_of : component.named_type.type);
+        }
+    }
+    else if (is_choice(type))
+    {
+        for (NamedType& named_type : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
+        {
+            function(named_type.type);
+        }
+    }
+    else if (is_sequence_of(type) || is_set_of(type))
+    {
+        SequenceOfType& sequence = is_sequence_of(type) ? absl::get<SequenceOfType>(absl::get<BuiltinType>(type))
+                                                        : absl::get<SetOfType>(absl::get<BuiltinType>(type)).base();
+        function(sequence.has_name ? sequence.named_type->type : *sequence.type);
+    }
+    else if (is_prefixed(type))
+    {
+        function(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type);
+    }
+    else if (is_defined(type))
+    {
+        for (Type& parameter : absl::get<DefinedType>(type).parameters)
+        {
+            function(parameter);
+        }
+    }
+}
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 90eb306..5c222e3 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -262,6 +262,7 @@ int main(int argc, char** argv)
         }
 
         resolve_tagging_environment(context.asn1_tree);
+        resolve_numbers(context.asn1_tree);
         resolve_parameters(context.asn1_tree);
         context.asn1_tree.modules = reorder_modules(context.asn1_tree.modules);
 
-- 
2.43.0


From 5e2cfac9edfa5201efc1329e012fda72b4b39d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 41/59] fix: default values and value assignments denote the
 value written, for enumerated types and references too

---
 src/compiler/Dependencies.cpp                 |  31 ++-
 src/compiler/ReorderAssignments.cpp           | 101 +++----
 src/compiler/TypeAsString.cpp                 |  48 ++--
 src/compiler/ValueAsString.cpp                | 260 +++++++++++++-----
 src/compiler/ValueType.cpp                    |   8 +-
 .../fast_ber/compiler/Dependencies.hpp        |   1 +
 .../fast_ber/compiler/ValueAsString.hpp       |   4 +-
 src/compiler_main/CompilerMain.cpp            |  12 +-
 8 files changed, 302 insertions(+), 163 deletions(-)

diff --git a/src/compiler/Dependencies.cpp b/src/compiler/Dependencies.cpp
index 0f80a69..fe330cb 100644
--- a/src/compiler/Dependencies.cpp
+++ b/src/compiler/Dependencies.cpp
@@ -40,12 +40,10 @@ std::vector<Dependency> depends_on(const SequenceType& sequence)
         const auto& additional = depends_on(component.named_type.type);
         depends.insert(depends.end(), additional.begin(), additional.end());
 
-        if (component.default_value &&
-            absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-            !is_enumerated(component.named_type.type))
+        if (component.default_value)
         {
-            const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-            depends.push_back(Dependency{defined.reference, absl::nullopt});
+            const auto& default_depends = depends_on(*component.default_value);
+            depends.insert(depends.end(), default_depends.begin(), default_depends.end());
         }
     }
     return depends;
@@ -68,6 +66,12 @@ std::vector<Dependency> depends_on(const SetType& set)
     {
         const auto& additional = depends_on(component.named_type.type);
         depends.insert(depends.end(), additional.begin(), additional.end());
+
+        if (component.default_value)
+        {
+            const auto& default_depends = depends_on(*component.default_value);
+            depends.insert(depends.end(), default_depends.begin(), default_depends.end());
+        }
     }
     return depends;
 }
@@ -110,7 +114,17 @@ std::vector<Dependency> depends_on(const Value& value)
     if (absl::holds_alternative<DefinedValue>(value.value_selection))
     {
         return {{absl::get<DefinedValue>(value.value_selection).reference, {}}};
-    };
+    }
+    if (absl::holds_alternative<std::vector<Value>>(value.value_selection))
+    {
+        std::vector<Dependency> depends;
+        for (const Value& component : absl::get<std::vector<Value>>(value.value_selection))
+        {
+            const auto& additional = depends_on(component);
+            depends.insert(depends.end(), additional.begin(), additional.end());
+        }
+        return depends;
+    }
     return {};
 }
 
@@ -140,6 +154,11 @@ void get_dependencies_recursive(const std::string& type_name, const std::string&
 {
     if (assignment_map.count(type_name) == 0)
     {
+        if (!type_name.empty() && std::islower(type_name[0]))
+        {
+            // An enumerator, a named number or an imported value
+            return;
+        }
         throw std::runtime_error("Unknown item in get_dependencies_recursive :" + type_name);
     }
 
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index a72771d..deffb10 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -155,16 +155,38 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
 
     visited_names.insert(name);
 
+    auto is_local = [&](const Dependency& dependency) {
+        return !dependency.module_reference || *dependency.module_reference == module.module_reference;
+    };
+
     auto is_circular = [&](const std::vector<Dependency>& depends) -> bool {
         absl::flat_hash_set<Dependency> complete_depends;
         for (const Dependency& dependency : depends)
         {
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            get_dependencies_recursive(dependency.name, module.module_reference, assignment_infos, complete_depends);
+            if (is_local(dependency))
+            {
+                get_dependencies_recursive(dependency.name, module.module_reference, assignment_infos,
+                                           complete_depends);
+            }
         }
 
         return std::any_of(complete_depends.begin(), complete_depends.end(),
-                           [&](const Dependency& depend) { return depend.name == name; });
+                           [&](const Dependency& depend) { return depend.name == name && is_local(depend); });
+    };
+
+    auto resolve_all = [&](const std::vector<Dependency>& depends) {
+        for (const Dependency& dependency : depends)
+        {
+            // A value may be defined elsewhere: as an enumerator, a named number or in another module
+            const bool is_elsewhere = !is_local(dependency) || (std::islower(dependency.name[0]) &&
+                                                                assignment_infos.count(dependency.name) == 0);
+            if (!is_elsewhere)
+            {
+                resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
+                                     ordered_assignment_infos);
+            }
+        }
     };
 
     if (is_type(assignment) &&
@@ -212,16 +234,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         }
         else
         {
-            for (const Dependency& dependency : assignment.depends_on)
-            {
-                if (dependency.module_reference && dependency.module_reference != module.module_reference)
-                {
-                    continue;
-                }
-
-                resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                     ordered_assignment_infos);
-            }
+            resolve_all(assignment.depends_on);
         }
     }
     else if (is_type(assignment) && is_sequence(type(assignment)))
@@ -231,19 +244,8 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         {
             if (component.default_value)
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
-
-                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(resolve_type(tree, module.module_reference, component.named_type).type))
-                {
-                    const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                         visited_names, ordered_assignment_infos);
-                }
+                resolve_all(depends_on(component.named_type.type));
+                resolve_all(depends_on(*component.default_value));
             }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
             else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
@@ -255,11 +257,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             }
             else
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
+                resolve_all(depends_on(component.named_type.type));
             }
         }
     }
@@ -270,19 +268,8 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         {
             if (component.default_value)
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
-
-                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(resolve_type(tree, module.module_reference, component.named_type).type))
-                {
-                    const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                         visited_names, ordered_assignment_infos);
-                }
+                resolve_all(depends_on(component.named_type.type));
+                resolve_all(depends_on(*component.default_value));
             }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
             else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
@@ -294,26 +281,13 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             }
             else
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
+                resolve_all(depends_on(component.named_type.type));
             }
         }
     }
     else
     {
-        for (const Dependency& dependency : assignment.depends_on)
-        {
-            if (dependency.module_reference && dependency.module_reference != module.module_reference)
-            {
-                continue;
-            }
-
-            resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                 ordered_assignment_infos);
-        }
+        resolve_all(assignment.depends_on);
     }
 
     ordered_assignment_infos.push_back(assignment);
@@ -329,7 +303,16 @@ std::vector<Assignment> reorder_assignments(std::vector<Assignment>& assignments
     assignment_map.reserve(assignments.size());
     for (Assignment& assignment : assignments)
     {
-        assignment.depends_on           = dependencies(assignment);
+        assignment.depends_on = dependencies(assignment);
+        if (is_value(assignment))
+        {
+            // The name of an enumerator or number of the type has precedence over a value reference
+            const NamedType& base    = resolve_base_type(tree, module, NamedType{{}, value(assignment).type});
+            auto             is_item = [&](const Dependency& depend) { return is_named_item(base.type, depend.name); };
+            assignment.depends_on.erase(
+                std::remove_if(assignment.depends_on.begin(), assignment.depends_on.end(), is_item),
+                assignment.depends_on.end());
+        }
         assignment_map[assignment.name] = assignment;
     }
 
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 2257caa..7c46f54 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -26,6 +26,17 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
     {
         CodeScope scope(block, true);
 
+        // Define child types
+        for (const ComponentType& component : collection.components)
+        {
+            block.add_block(create_type_assignment(make_type_name(component.named_type.name, type_name),
+                                                   component.named_type.type, module, tree, {}, false));
+        }
+        if (!collection.components.empty())
+        {
+            block.add_line();
+        }
+
         bool has_defaults = false;
         for (const ComponentType& component : collection.components)
         {
@@ -33,12 +44,14 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
             {
                 std::string name = component.named_type.name;
                 name[0]          = std::toupper(name[0]);
-                block.add_line("struct DefaultValue" + name + " { constexpr static " +
-                               value_type(component.named_type.type, module, tree, component.named_type.name, {}) +
-                               " get_value() noexcept { return " +
-                               value_as_string(resolve_type(tree, module.module_reference, component.named_type),
-                                               *component.default_value) +
-                               "; } };");
+
+                const NamedType& base = resolve_base_type(
+                    tree, module,
+                    NamedType{make_type_name(component.named_type.name, type_name), component.named_type.type});
+                block.add_line("struct DefaultValue" + name +
+                               (is_oid(base.type) ? " { static " : " { constexpr static ") +
+                               value_type(base.type, module, tree, base.name, {}) + " get_value() noexcept { return " +
+                               value_as_string(base, *component.default_value, module, tree) + "; } };");
                 has_defaults = true;
             }
         }
@@ -47,17 +60,6 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
             block.add_line();
         }
 
-        // Define child types
-        for (const ComponentType& component : collection.components)
-        {
-            block.add_block(create_type_assignment(make_type_name(component.named_type.name, type_name),
-                                                   component.named_type.type, module, tree, {}, false));
-        }
-        if (!collection.components.empty())
-        {
-            block.add_line();
-        }
-
         for (const ComponentType& component : collection.components)
         {
             std::string component_type = make_type_name(component.named_type.name, type_name);
@@ -330,6 +332,11 @@ std::string type_as_string(const DefinedType& defined_type, const Module& module
         NamedType resolved = resolve_type(tree, module.module_reference, defined_type);
         if (!is_generated(resolved.type))
         {
+            NamedType base = resolve_base_type(tree, module, NamedType{{}, defined_type});
+            if (is_enumerated(base.type))
+            {
+                return type_as_string(base.type, module, tree, base.name, identifier_override);
+            }
             return type_as_string(resolved.type, module, tree, defined_type.type_reference, identifier_override);
         }
     }
@@ -445,10 +452,11 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
         {
             DefinedType const&        defined_type = absl::get<DefinedType>(assignment_type);
             NamedTypeAndModule const& resolved = resolve_type_and_module(tree, module.module_reference, defined_type);
-            if (is_enumerated(resolved.type.type) && resolved.module.module_reference != module.module_reference)
+            if (introduce_type && name == defined_type.type_reference && is_enumerated(resolved.type.type) &&
+                resolved.module.module_reference != module.module_reference)
             {
-                block.add_line("using " + defined_type.type_reference + "Values = ::fast_ber::" +
-                               resolved.module.module_reference + "::" + defined_type.type_reference + "Values;");
+                block.add_line("using " + name + "Values = ::fast_ber::" + resolved.module.module_reference +
+                               "::" + resolved.type.name + "Values;");
             }
         }
         if (introduce_type)
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 334c914..13e9a66 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -1,31 +1,185 @@
 #include "fast_ber/compiler/ValueAsString.hpp"
 
+#include "fast_ber/compiler/ResolveType.hpp"
+
+#include <iomanip>
 #include <iostream>
+#include <limits>
+#include <sstream>
+#include <unordered_map>
+
+std::string integer_as_string(int64_t integer)
+{
+    if (integer == std::numeric_limits<int64_t>::min())
+    {
+        return "std::numeric_limits<int64_t>::min()"; // There is no literal for it
+    }
+    return std::to_string(integer);
+}
+
+// Expression for a string of octets, which may be zero or not printable
+std::string octets_as_string(const std::string& octets)
+{
+    static const char digits[] = "01234567";
+
+    std::string res = "absl::string_view(\"";
+    for (const char c : octets)
+    {
+        const unsigned char octet = static_cast<unsigned char>(c);
+        if (octet >= 0x20 && octet < 0x7f && octet != '"' && octet != '\\' && octet != '?')
+        {
+            res += c;
+        }
+        else
+        {
+            res += '\\';
+            res += digits[octet >> 6];
+            res += digits[(octet >> 3) & 7];
+            res += digits[octet & 7];
+        }
+    }
+    return res + "\", " + std::to_string(octets.size()) + ")";
+}
+
+std::string bits_to_octets(const std::string& bits)
+{
+    std::string octets((bits.length() + 7) / 8, '\0');
+    for (size_t i = 0; i < bits.length(); i++)
+    {
+        if (bits[i] == '1')
+        {
+            octets[i / 8] = static_cast<char>(octets[i / 8] | (0x80 >> (i % 8)));
+        }
+    }
+    return octets;
+}
+
+std::string hex_to_bits(const std::string& hex)
+{
+    std::string bits;
+    for (const char digit : hex)
+    {
+        const int value = std::stoi(std::string(1, digit), nullptr, 16);
+        for (int bit = 8; bit > 0; bit /= 2)
+        {
+            bits += (value & bit) ? '1' : '0';
+        }
+    }
+    return bits;
+}
+
+// An ASN.1 character string is quoted, a quotation mark in it is written twice
+std::string unquote(const std::string& quoted)
+{
+    std::string res;
+    for (size_t i = 1; i + 1 < quoted.length(); i++)
+    {
+        res += quoted[i];
+        if (quoted[i] == '"' && quoted[i + 1] == '"')
+        {
+            i++;
+        }
+    }
+    return res;
+}
 
-std::string cpp_value(const HexStringValue& hex)
+std::string real_as_string(double real)
 {
-    std::string res = "\"";
-    size_t      i   = 0;
+    std::stringstream ss;
+    ss << std::setprecision(std::numeric_limits<double>::max_digits10) << std::scientific << real;
+    return ss.str();
+}
+
+std::vector<int64_t> object_id_numbers(const Value& value, const Module& module, const Asn1Tree& tree, size_t depth = 0)
+{
+    // Names with a number given by X.660
+    static const std::unordered_map<std::string, int64_t> root_arcs = {
+        {"itu_t", 0}, {"ccitt", 0}, {"iso", 1}, {"joint_iso_itu_t", 2}, {"joint_iso_ccitt", 2}};
+    static const std::unordered_map<std::string, int64_t> itu_arcs = {{"recommendation", 0},
+                                                                      {"question", 1},
+                                                                      {"administration", 2},
+                                                                      {"network_operator", 3},
+                                                                      {"identified_organization", 4}};
+    static const std::unordered_map<std::string, int64_t> iso_arcs = {
+        {"standard", 0}, {"registration_authority", 1}, {"member_body", 2}, {"identified_organization", 3}};
+
+    if (depth > 1000)
+    {
+        throw std::runtime_error("Circular object identifier");
+    }
+    if (absl::holds_alternative<DefinedValue>(value.value_selection))
+    {
+        const std::string&   reference = absl::get<DefinedValue>(value.value_selection).reference;
+        const ValueAndModule found     = find_value(tree, module, reference);
+        if (!found.value)
+        {
+            throw std::runtime_error("Reference to undefined value: " + reference);
+        }
+        return object_id_numbers(found.value->value, *found.module, tree, depth + 1);
+    }
 
-    if (hex.value.length() % 2 == 1)
+    std::vector<int64_t> numbers;
+    for (const ObjectIdComponentValue& component : ObjectIdComponents(value).components)
     {
-        const std::string& byte = std::string(hex.value.begin(), hex.value.begin() + 1);
-        res += "\\";
-        res += std::to_string(std::stoi(byte, nullptr, 16));
-        i++;
+        if (component.value)
+        {
+            numbers.push_back(*component.value);
+            continue;
+        }
+        const auto& arcs = numbers.empty() ? root_arcs : (numbers[0] == 0 ? itu_arcs : iso_arcs);
+        const auto  iter = arcs.find(*component.name);
+        if (iter != arcs.end() && (numbers.empty() || (numbers.size() == 1 && numbers[0] < 2)))
+        {
+            numbers.push_back(iter->second);
+            continue;
+        }
+        const ValueAndModule found = find_value(tree, module, *component.name);
+        if (found.value && absl::holds_alternative<int64_t>(found.value->value.value_selection))
+        {
+            numbers.push_back(absl::get<int64_t>(found.value->value.value_selection));
+        }
+        else if (found.value && numbers.empty())
+        {
+            numbers = object_id_numbers(found.value->value, *found.module, tree, depth + 1);
+        }
+        else
+        {
+            std::cerr << "Warning: Unknown number of object identifier component : " << *component.name << std::endl;
+            numbers.push_back(0);
+        }
     }
+    return numbers;
+}
 
-    for (; i < hex.value.length(); i += 2)
+// Expression for the value a reference denotes
+std::string reference_as_string(const NamedType& value_type, const DefinedValue& defined, const Module& module,
+                                const Asn1Tree& tree)
+{
+    if (is_named_item(value_type.type, defined.reference))
     {
-        const std::string& byte = std::string(hex.value.begin() + i, hex.value.begin() + i + 2);
-        res += "\\";
-        res += std::to_string(std::stoi(byte, nullptr, 16));
+        if (is_enumerated(value_type.type))
+        {
+            return value_type.name + "Values::" + defined.reference;
+        }
+        for (const NamedNumber& named_number :
+             absl::get<IntegerType>(absl::get<BuiltinType>(value_type.type)).named_numbers)
+        {
+            if (named_number.name == defined.reference)
+            {
+                return integer_as_string(named_number.number);
+            }
+        }
     }
 
-    return res + "\"";
+    const ValueAndModule found = find_value(tree, module, defined.reference);
+    if (!found.value)
+    {
+        throw std::runtime_error("Reference to undefined value: " + module.module_reference + "." + defined.reference);
+    }
+    return "::fast_ber::" + found.module->module_reference + "::" + defined.reference;
 }
 
-std::string value_as_string(const NamedType& value_type, const Value& value)
+std::string value_as_string(const NamedType& value_type, const Value& value, const Module& module, const Asn1Tree& tree)
 {
     assert(!is_defined(value_type.type)); // value_type should be concrete
 
@@ -35,81 +189,54 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
         result += "ObjectIdentifier<>{";
         try
         {
-            const ObjectIdComponents& object_id = ObjectIdComponents(value);
-
-            for (size_t i = 0; i < object_id.components.size(); i++)
+            bool is_first = true;
+            for (const int64_t number : object_id_numbers(value, module, tree))
             {
-                if (object_id.components[i].value)
-                {
-                    result += std::to_string(*object_id.components[i].value);
-                }
-                else
-                {
-                    result += std::to_string(0);
-                }
-
-                if (i < object_id.components.size() - 1)
-                {
-                    result += ", ";
-                }
+                result += (is_first ? "" : ", ") + std::to_string(number);
+                is_first = false;
             }
         }
         catch (const std::runtime_error& e)
         {
-            std::cerr << std::string("Warning: Value is not an object identifier : ") + e.what() << std::endl;
-            return "";
+            throw std::runtime_error(std::string("Value is not an object identifier : ") + e.what());
         }
         result += "}";
     }
-    else if (is_bit_string(value_type.type))
+    else if (absl::holds_alternative<DefinedValue>(value.value_selection))
     {
-        if (absl::holds_alternative<BitStringValue>(value.value_selection))
-        {
-            const BitStringValue& bstring = absl::get<BitStringValue>(value.value_selection);
-            (void)bstring; // TODO: convert bstring to cstring
-            result += "\"\"";
-        }
-        else
-        {
-            result += "\"\"";
-        }
+        result += reference_as_string(value_type, absl::get<DefinedValue>(value.value_selection), module, tree);
     }
     else if (is_enumerated(value_type.type))
     {
-        if (absl::holds_alternative<DefinedValue>(value.value_selection))
-        {
-            const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
-            result += value_type.name + "Values::" + defined.reference;
-        }
-        else
-        {
-            throw std::runtime_error("Unexpected Enumerated type");
-        }
+        throw std::runtime_error("Unexpected Enumerated type");
     }
     else if (absl::holds_alternative<std::string>(value.value_selection))
     {
         const std::string& string = absl::get<std::string>(value.value_selection);
         result += string;
     }
-    else if (absl::holds_alternative<HexStringValue>(value.value_selection))
+    else if (absl::holds_alternative<BitStringValue>(value.value_selection) ||
+             absl::holds_alternative<HexStringValue>(value.value_selection))
     {
-        const HexStringValue& hstring = absl::get<HexStringValue>(value.value_selection);
-        result += "absl::string_view(" + cpp_value(hstring) + ")";
+        const std::string& bits   = absl::holds_alternative<BitStringValue>(value.value_selection)
+                                        ? absl::get<BitStringValue>(value.value_selection).value
+                                        : hex_to_bits(absl::get<HexStringValue>(value.value_selection).value);
+        std::string        octets = bits_to_octets(bits);
+        if (is_bit_string(value_type.type))
+        {
+            // The content octets of a BIT STRING begin with the number of unused bits
+            octets.insert(octets.begin(), static_cast<char>(octets.length() * 8 - bits.length()));
+        }
+        result += octets_as_string(octets);
     }
     else if (absl::holds_alternative<CharStringValue>(value.value_selection))
     {
         const CharStringValue& cstring = absl::get<CharStringValue>(value.value_selection);
-        result += "absl::string_view(" + cstring.value + ")";
+        result += octets_as_string(unquote(cstring.value));
     }
     else if (absl::holds_alternative<int64_t>(value.value_selection))
     {
-        const int64_t integer = absl::get<int64_t>(value.value_selection);
-        result += std::to_string(integer);
-    }
-    else if (absl::holds_alternative<DefinedValue>(value.value_selection))
-    {
-        const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
-        result += defined.reference;
+        result += integer_as_string(absl::get<int64_t>(value.value_selection));
     }
     else if (absl::holds_alternative<BooleanValue>(value.value_selection))
     {
@@ -118,8 +245,11 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     }
     else if (absl::holds_alternative<double>(value.value_selection))
     {
-        const double& real = absl::get<double>(value.value_selection);
-        result += std::to_string(real);
+        result += real_as_string(absl::get<double>(value.value_selection));
+    }
+    else if (absl::holds_alternative<NullValue>(value.value_selection))
+    {
+        result += "nullptr";
     }
     else
     {
diff --git a/src/compiler/ValueType.cpp b/src/compiler/ValueType.cpp
index bf4588d..dfadbc6 100644
--- a/src/compiler/ValueType.cpp
+++ b/src/compiler/ValueType.cpp
@@ -86,7 +86,7 @@ std::string value_type(const IRIType&, const Module&, const Asn1Tree&, const std
 }
 std::string value_type(const NullType&, const Module&, const Asn1Tree&, const std::string&, const std::string&)
 {
-    return "nullptr_t";
+    return "std::nullptr_t";
 }
 std::string value_type(const ObjectClassFieldType&, const Module&, const Asn1Tree&, const std::string&,
                        const std::string&)
@@ -172,7 +172,7 @@ std::string value_type(const SetOfType& set, const Module& module, const Asn1Tre
     return res;
 }
 std::string value_type(const PrefixedType& prefixed_type, const Module& module, const Asn1Tree& tree,
-                       const std::string&, const std::string& identifier_override)
+                       const std::string& type_name, const std::string& identifier_override)
 {
     auto id = identifier(prefixed_type, module, tree).name();
     if (!identifier_override.empty())
@@ -180,7 +180,7 @@ std::string value_type(const PrefixedType& prefixed_type, const Module& module,
         id = identifier_override;
     }
 
-    return value_type(prefixed_type.tagged_type->type, module, tree, "", id);
+    return value_type(prefixed_type.tagged_type->type, module, tree, type_name, id);
 }
 std::string value_type(const TimeType&, const Module&, const Asn1Tree&, const std::string&,
                        const std::string& identifier_override)
@@ -200,7 +200,7 @@ std::string value_type(const UTCTimeType&, const Module&, const Asn1Tree&, const
 std::string value_type(const DefinedType& defined_type, const Module& module, const Asn1Tree& tree, const std::string&,
                        const std::string& identifier_override)
 {
-    const NamedType& referenced = resolve_type(tree, module.module_reference, defined_type);
+    const NamedType& referenced = resolve_base_type(tree, module, NamedType{{}, defined_type});
     return value_type(referenced.type, module, tree, referenced.name, identifier_override);
 }
 
diff --git a/src/compiler/include/fast_ber/compiler/Dependencies.hpp b/src/compiler/include/fast_ber/compiler/Dependencies.hpp
index 8fda971..ccd0564 100644
--- a/src/compiler/include/fast_ber/compiler/Dependencies.hpp
+++ b/src/compiler/include/fast_ber/compiler/Dependencies.hpp
@@ -38,6 +38,7 @@ std::vector<Dependency> depends_on(const UTCTimeType&);
 std::vector<Dependency> depends_on(const DefinedType&);
 std::vector<Dependency> depends_on(const BuiltinType& type);
 std::vector<Dependency> depends_on(const Type& type);
+std::vector<Dependency> depends_on(const Value& value);
 
 std::vector<Dependency> dependencies(const Type& type);
 std::vector<Dependency> dependencies(const Assignment& assignment);
diff --git a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
index 6ce15ba..e321313 100644
--- a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
@@ -2,4 +2,6 @@
 
 #include "fast_ber/compiler/CompilerTypes.hpp"
 
-std::string value_as_string(const NamedType& value_type, const Value& value);
+// C++ expression for a value written in a module. The type must be free of tags and references
+std::string value_as_string(const NamedType& value_type, const Value& value, const Module& module,
+                            const Asn1Tree& tree);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 5c222e3..30c5dcd 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -43,18 +43,14 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
             log_debug(tree, "Creating value assignment: " + module.module_reference + "." + assignment.name);
 
             const ValueAssignment& value_assign = absl::get<ValueAssignment>(assignment.specific);
-            const Type&            assigned_to_type =
-                (is_defined(value_assign.type))
-                               ? type(resolve(tree, module.module_reference, absl::get<DefinedType>(value_assign.type)))
-                               : value_assign.type;
+            const NamedType& base = resolve_base_type(tree, module, NamedType{assignment.name, value_assign.type});
 
-            std::string constness =
-                is_oid(assigned_to_type) ? std::string("static const ") : std::string("static constexpr ");
+            std::string constness = is_oid(base.type) ? std::string("static const ") : std::string("static constexpr ");
 
             std::string result =
-                constness + value_type(value_assign.type, module, tree) + " " + assignment.name + " = ";
+                constness + value_type(base.type, module, tree, base.name) + " " + assignment.name + " = ";
 
-            result += value_as_string(NamedType{assignment.name, assigned_to_type}, value_assign.value) + ";\n";
+            result += value_as_string(base, value_assign.value, module, tree) + ";\n";
             return result;
         }
         else if (absl::holds_alternative<TypeAssignment>(assignment.specific))
-- 
2.43.0


From 0922aea415281694b83310ce3882fc5c3b8521d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 42/59] fix: default values of tagged object identifiers
 compile

---
 src/compiler/TypeAsString.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 7c46f54..38aac16 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -48,10 +48,20 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
                 const NamedType& base = resolve_base_type(
                     tree, module,
                     NamedType{make_type_name(component.named_type.name, type_name), component.named_type.type});
-                block.add_line("struct DefaultValue" + name +
-                               (is_oid(base.type) ? " { static " : " { constexpr static ") +
-                               value_type(base.type, module, tree, base.name, {}) + " get_value() noexcept { return " +
-                               value_as_string(base, *component.default_value, module, tree) + "; } };");
+                const std::string& value = value_as_string(base, *component.default_value, module, tree);
+                if (is_oid(base.type))
+                {
+                    // Components can be assigned to an object identifier with any tag
+                    block.add_line("struct DefaultValue" + name +
+                                   " { static ObjectIdentifierComponents get_value() noexcept { return (" + value +
+                                   ").value(); } };");
+                }
+                else
+                {
+                    block.add_line("struct DefaultValue" + name + " { constexpr static " +
+                                   value_type(base.type, module, tree, base.name, {}) +
+                                   " get_value() noexcept { return " + value + "; } };");
+                }
                 has_defaults = true;
             }
         }
-- 
2.43.0


From 910128e205c9cb9bb23fca67b5ddc94287284301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 43/59] fix: sets without components refuse components they do
 not know

---
 src/compiler/EncodeDecode.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 2712427..e1002d6 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -202,9 +202,14 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
             block.add_line("return DecodeResult{false};");
         }
 
-        if (collection.components.size() > 0)
+        // A set without components still has to refuse the components it does not know
+        if (collection.components.size() > 0 ||
+            (std::is_same<CollectionType, SetType>::value && !collection.allow_extensions))
         {
-            block.add_line("DecodeResult res;");
+            if (collection.components.size() > 0)
+            {
+                block.add_line("DecodeResult res;");
+            }
             block.add_line("auto iterator = (Identifier_::depth() == 1) ? input.begin()");
             block.add_line("                                            : input.begin()->begin();");
 
@@ -214,8 +219,11 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                 block.add_line("                                             : input.begin()->end();");
                 block.add_line();
 
-                block.add_line("std::array<std::size_t, " + std::to_string(collection.components.size()) +
-                               "> decode_counts = {};");
+                if (collection.components.size() > 0)
+                {
+                    block.add_line("std::array<std::size_t, " + std::to_string(collection.components.size()) +
+                                   "> decode_counts = {};");
+                }
                 block.add_line("while (iterator != end)");
                 {
                     auto scope2 = CodeScope(block);
-- 
2.43.0


From 9772047fd52ff417b22a2abb63653db49e2063af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 44/59] fix: tagged definitions of generated types, and tagged
 list elements, use their tag

---
 include/fast_ber/util/Alias.hpp               | 33 +++++++++++++++++--
 src/compiler/TypeAsString.cpp                 | 21 +++++++++---
 .../fast_ber/compiler/TypeAsString.hpp        |  2 +-
 3 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/include/fast_ber/util/Alias.hpp b/include/fast_ber/util/Alias.hpp
index 9caba9d..b52c677 100644
--- a/include/fast_ber/util/Alias.hpp
+++ b/include/fast_ber/util/Alias.hpp
@@ -6,12 +6,39 @@
         using AliasedType = __VA_ARGS__;                                                                               \
         using AliasedType::AliasedType;                                                                                \
         using AliasedType::operator=;                                                                                  \
-        X()                        = default;                                                                          \
-        X(const X&)                = default;                                                                          \
-        X(X&&)                     = default;                                                                          \
+        X()         = default;                                                                                         \
+        X(const X&) = default;                                                                                         \
+        X(X&&)      = default;                                                                                         \
         X(const AliasedType& a) : AliasedType(a) {}                                                                    \
         X(AliasedType&& a) : AliasedType(std::move(a)) {}                                                              \
         X&                 operator=(const X&) = default;                                                              \
         AliasedType&       get_base() { return *this; }                                                                \
         const AliasedType& get_base() const { return *this; }                                                          \
     }
+
+// A generated type known by another identifier, which follows the type
+#define FAST_BER_TAGGED_ALIAS(X, TYPE, ...)                                                                            \
+    struct X : TYPE                                                                                                    \
+    {                                                                                                                  \
+        using AliasedType = TYPE;                                                                                      \
+        using AsnId       = __VA_ARGS__;                                                                               \
+        using AliasedType::AliasedType;                                                                                \
+        using AliasedType::operator=;                                                                                  \
+        X()         = default;                                                                                         \
+        X(const X&) = default;                                                                                         \
+        X(X&&)      = default;                                                                                         \
+        X(const AliasedType& a) : AliasedType(a) {}                                                                    \
+        X(AliasedType&& a) : AliasedType(std::move(a)) {}                                                              \
+        X&                 operator=(const X&) = default;                                                              \
+        AliasedType&       get_base() { return *this; }                                                                \
+        const AliasedType& get_base() const { return *this; }                                                          \
+        size_t             encoded_length() const noexcept { return this->template encoded_length_with_id<AsnId>(); }  \
+        ::fast_ber::EncodeResult encode(absl::Span<uint8_t> output) const noexcept                                     \
+        {                                                                                                              \
+            return this->template encode_with_id<AsnId>(output);                                                       \
+        }                                                                                                              \
+        ::fast_ber::DecodeResult decode(::fast_ber::BerView input) noexcept                                            \
+        {                                                                                                              \
+            return this->template decode_with_id<AsnId>(input);                                                        \
+        }                                                                                                              \
+    }
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 38aac16..8d90eec 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -388,7 +388,8 @@ std::string type_as_string(const Type& type, const Module& module, const Asn1Tre
 }
 
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
-                                 const Asn1Tree& tree, const std::string& identifier_override, bool introduce_type)
+                                 const Asn1Tree& tree, const std::string& identifier_override, bool introduce_type,
+                                 bool is_element)
 {
     CodeBlock block;
 
@@ -413,13 +414,13 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     {
         const SetOfType& sequence = absl::get<SetOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&      type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false, true));
     }
     else if (is_sequence_of(assignment_type))
     {
         const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&           type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false, true));
     }
     else if (is_set(assignment_type))
     {
@@ -448,7 +449,8 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
         }
 
         const PrefixedType& prefixed = absl::get<PrefixedType>(absl::get<BuiltinType>(assignment_type));
-        block.add_block(create_type_assignment(name, prefixed.tagged_type->type, module, tree, id, introduce_type));
+        block.add_block(
+            create_type_assignment(name, prefixed.tagged_type->type, module, tree, id, introduce_type, is_element));
     }
     else
     {
@@ -469,7 +471,16 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
                                "::" + resolved.type.name + "Values;");
             }
         }
-        if (introduce_type)
+        // Generated types are not templated on their identifier, so need a new type to be known by another one
+        const bool is_tagged_generated =
+            is_generated(resolve_type(tree, module.module_reference, NamedType{{}, assignment_type}).type) &&
+            id != identifier(assignment_type, module, tree).name();
+        if (is_tagged_generated && (introduce_type || is_element))
+        {
+            block.add_line("FAST_BER_TAGGED_ALIAS(" + name + ", " +
+                           type_as_string(assignment_type, module, tree, name, id) + ", " + id + ");");
+        }
+        else if (introduce_type)
         {
             block.add_line("FAST_BER_ALIAS(" + name + ", " + type_as_string(assignment_type, module, tree, name, id) +
                            ");");
diff --git a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
index 62fdec1..3fcd0f3 100644
--- a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
@@ -117,5 +117,5 @@ inline std::string type_name(const Type& t) { return absl::visit(TypeNameHelper{
 
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
                                  const Asn1Tree& tree, const std::string& identifier_override = {},
-                                 bool introduce_type = true);
+                                 bool introduce_type = true, bool is_element = false);
 CodeBlock create_type_assignment(const Assignment& assignment, const Module& module, const Asn1Tree& tree);
-- 
2.43.0


From 6e5890cb5815149316cc4a8846c63acae05fdddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 45/59] fix: references to references to tagged list types
 compile

---
 src/compiler/TypeAsString.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 8d90eec..12856cb 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -309,7 +309,7 @@ std::string type_as_string(const SetOfType& set, const Module& module, const Asn
     return type_as_string(set.base(), module, tree, type_name, identifier_override);
 }
 std::string type_as_string(const PrefixedType& prefixed_type, const Module& module, const Asn1Tree& tree,
-                           const std::string&, const std::string& identifier_override)
+                           const std::string& type_name, const std::string& identifier_override)
 {
     auto id = identifier(prefixed_type, module, tree).name();
     if (!identifier_override.empty())
@@ -317,7 +317,7 @@ std::string type_as_string(const PrefixedType& prefixed_type, const Module& modu
         id = identifier_override;
     }
 
-    return type_as_string(prefixed_type.tagged_type->type, module, tree, "", id);
+    return type_as_string(prefixed_type.tagged_type->type, module, tree, type_name, id);
 }
 std::string type_as_string(const TimeType& type, const Module& module, const Asn1Tree& tree, const std::string&,
                            const std::string& identifier_override)
@@ -342,12 +342,9 @@ std::string type_as_string(const DefinedType& defined_type, const Module& module
         NamedType resolved = resolve_type(tree, module.module_reference, defined_type);
         if (!is_generated(resolved.type))
         {
+            // Enumerators and list elements are defined along with the type, whatever names it is known by since
             NamedType base = resolve_base_type(tree, module, NamedType{{}, defined_type});
-            if (is_enumerated(base.type))
-            {
-                return type_as_string(base.type, module, tree, base.name, identifier_override);
-            }
-            return type_as_string(resolved.type, module, tree, defined_type.type_reference, identifier_override);
+            return type_as_string(base.type, module, tree, base.name, identifier_override);
         }
     }
 
-- 
2.43.0


From effe71c4d47996fcfc6741bdbd5eef67a32b945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 46/59] fix: recursive definitions are accepted in every order
 and position

---
 src/compiler/ReorderAssignments.cpp           | 406 ++++++++----------
 src/compiler/TypeAsString.cpp                 |  33 +-
 .../fast_ber/compiler/ReorderAssignments.hpp  |   2 +-
 .../fast_ber/compiler/TypeAsString.hpp        |   2 +-
 src/compiler_main/CompilerMain.cpp            |   2 +-
 5 files changed, 214 insertions(+), 231 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index deffb10..ddaf646 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -3,6 +3,9 @@
 #include "fast_ber/compiler/Logging.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
 #include "fast_ber/compiler/TypeAsString.hpp"
+#include "fast_ber/compiler/Visit.hpp"
+
+#include <functional>
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
@@ -129,6 +132,73 @@ void resolve_components_of(Asn1Tree& tree)
     }
 }
 
+using IsCircular = std::function<bool(const Dependency&)>;
+
+// Chooses dynamic storage for every part of a definition which (indirectly) contains the definition itself, and returns
+// the dependencies which must be defined before it
+std::vector<Dependency> resolve_storage(Type& type, const IsCircular& is_circular)
+{
+    std::vector<Dependency> result;
+    const auto              add = [&](const std::vector<Dependency>& depends) {
+        result.insert(result.end(), depends.begin(), depends.end());
+    };
+    const auto any_circular = [&](const std::vector<Dependency>& depends) {
+        return std::any_of(depends.begin(), depends.end(), is_circular);
+    };
+    const auto without_circular = [&](std::vector<Dependency> depends) {
+        depends.erase(std::remove_if(depends.begin(), depends.end(), is_circular), depends.end());
+        return depends;
+    };
+
+    if (is_sequence(type) || is_set(type))
+    {
+        Collection& collection = is_sequence(type)
+                                     ? static_cast<Collection&>(absl::get<SequenceType>(absl::get<BuiltinType>(type)))
+                                     : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
+        for (ComponentType& component : collection.components)
+        {
+            const auto& depends = resolve_storage(component.named_type.type, is_circular);
+            if (component.is_optional && any_circular(depends_on(component.named_type.type)))
+            {
+                component.optional_storage = StorageMode::dynamic;
+                add(without_circular(depends));
+            }
+            else
+            {
+                add(depends);
+            }
+            if (component.default_value)
+            {
+                add(depends_on(*component.default_value));
+            }
+        }
+        return result;
+    }
+
+    for_each_child(type, [&](Type& child) { add(resolve_storage(child, is_circular)); });
+    if (is_defined(type))
+    {
+        return depends_on(type);
+    }
+    if ((is_choice(type) || is_set_of(type) || is_sequence_of(type)) && any_circular(depends_on(type)))
+    {
+        if (is_choice(type))
+        {
+            absl::get<ChoiceType>(absl::get<BuiltinType>(type)).storage = StorageMode::dynamic;
+        }
+        else if (is_set_of(type))
+        {
+            absl::get<SetOfType>(absl::get<BuiltinType>(type)).storage = StorageMode::dynamic;
+        }
+        else
+        {
+            absl::get<SequenceOfType>(absl::get<BuiltinType>(type)).storage = StorageMode::dynamic;
+        }
+        return without_circular(result);
+    }
+    return result;
+}
+
 void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignment_infos, const std::string& name,
                           const Asn1Tree& tree, const Module& module, std::unordered_set<std::string>& assigned_names,
                           std::unordered_set<std::string>& visited_names,
@@ -159,136 +229,31 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         return !dependency.module_reference || *dependency.module_reference == module.module_reference;
     };
 
-    auto is_circular = [&](const std::vector<Dependency>& depends) -> bool {
-        absl::flat_hash_set<Dependency> complete_depends;
-        for (const Dependency& dependency : depends)
+    auto is_circular = [&](const Dependency& dependency) -> bool {
+        if (!is_local(dependency))
         {
-            // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            if (is_local(dependency))
-            {
-                get_dependencies_recursive(dependency.name, module.module_reference, assignment_infos,
-                                           complete_depends);
-            }
+            return false;
         }
+        absl::flat_hash_set<Dependency> complete_depends{dependency};
+        get_dependencies_recursive(dependency.name, module.module_reference, assignment_infos, complete_depends);
 
         return std::any_of(complete_depends.begin(), complete_depends.end(),
                            [&](const Dependency& depend) { return depend.name == name && is_local(depend); });
     };
 
-    auto resolve_all = [&](const std::vector<Dependency>& depends) {
-        for (const Dependency& dependency : depends)
-        {
-            // A value may be defined elsewhere: as an enumerator, a named number or in another module
-            const bool is_elsewhere = !is_local(dependency) || (std::islower(dependency.name[0]) &&
-                                                                assignment_infos.count(dependency.name) == 0);
-            if (!is_elsewhere)
-            {
-                resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                     ordered_assignment_infos);
-            }
-        }
-    };
-
-    if (is_type(assignment) &&
-        (is_choice(type(assignment)) || is_set_of(type(assignment)) || is_sequence_of(type(assignment))))
-    {
-        // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-        if (is_circular({Dependency{name, module.module_reference}}))
-        {
-            // As type is now dynamic it doesn't have any dependencies
-            assignment_infos[name].depends_on = {};
-
-            if (is_choice(type(assignment)))
-            {
-                ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type(assignment)));
-                choice.storage     = StorageMode::dynamic;
-
-                // Also mark self referential children as dynamic (Sizeof choice cannot yet be determined)
-                // TODO: should only be dynamic if refer to choice
-                for (NamedType& child : choice.choices)
-                {
-                    Type& child_type =
-                        is_prefixed(child.type)
-                            ? absl::get<PrefixedType>(absl::get<BuiltinType>(child.type)).tagged_type->type
-                            : child.type;
-
-                    if (is_set_of(child_type))
-                    {
-                        absl::get<SetOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
-                    }
-                    if (is_sequence_of(child_type))
-                    {
-                        absl::get<SequenceOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
-                    }
-                }
-            }
-            else if (is_set_of(type(assignment)))
-            {
-                absl::get<SetOfType>(absl::get<BuiltinType>(type(assignment))).storage = StorageMode::dynamic;
-            }
-            else if (is_sequence_of(type(assignment)))
-            {
-                absl::get<SequenceOfType>(absl::get<BuiltinType>(type(assignment))).storage = StorageMode::dynamic;
-            }
-            std::cout << "Type " << name << " has circular dependencies, setting dynamic storage policy" << std::endl;
-        }
-        else
-        {
-            resolve_all(assignment.depends_on);
-        }
-    }
-    else if (is_type(assignment) && is_sequence(type(assignment)))
-    {
-        SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type(assignment)));
-        for (ComponentType& component : sequence.components)
-        {
-            if (component.default_value)
-            {
-                resolve_all(depends_on(component.named_type.type));
-                resolve_all(depends_on(*component.default_value));
-            }
-            // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
-            {
-                std::cout << "Optional member[" << component.named_type.name << "] of [" << name
-                          << "] has circular dependencies, setting dynamic storage policy" << std::endl;
-
-                component.optional_storage = StorageMode::dynamic;
-            }
-            else
-            {
-                resolve_all(depends_on(component.named_type.type));
-            }
-        }
-    }
-    else if (is_type(assignment) && is_set(type(assignment)))
+    const std::vector<Dependency> depends =
+        is_type(assignment) ? resolve_storage(type(assignment), is_circular) : assignment.depends_on;
+    for (const Dependency& dependency : depends)
     {
-        SetType& sequence = absl::get<SetType>(absl::get<BuiltinType>(type(assignment)));
-        for (ComponentType& component : sequence.components)
+        // A value may be defined elsewhere: as an enumerator, a named number or in another module
+        const bool is_elsewhere =
+            !is_local(dependency) || (std::islower(dependency.name[0]) && assignment_infos.count(dependency.name) == 0);
+        if (!is_elsewhere)
         {
-            if (component.default_value)
-            {
-                resolve_all(depends_on(component.named_type.type));
-                resolve_all(depends_on(*component.default_value));
-            }
-            // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
-            {
-                std::cout << "Optional member[" << component.named_type.name << "] of [" << name
-                          << "] has circular dependencies, setting dynamic storage policy" << std::endl;
-
-                component.optional_storage = StorageMode::dynamic;
-            }
-            else
-            {
-                resolve_all(depends_on(component.named_type.type));
-            }
+            resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
+                                 ordered_assignment_infos);
         }
     }
-    else
-    {
-        resolve_all(assignment.depends_on);
-    }
 
     ordered_assignment_infos.push_back(assignment);
     assigned_names.insert(name);
@@ -336,124 +301,133 @@ std::vector<Assignment> reorder_assignments(std::vector<Assignment>& assignments
     return ordered_assignments;
 }
 
-int unnamed_definition_num = 0;
-// Finds any sequence or set types nested within a type
-void find_nested_structs(const Module& module, Type& type, std::vector<NamedType>& nested_structs)
+// Replaces a type with a reference to a new definition
+void split_type(const Module& module, Type& type, const std::string& prefix, std::vector<NamedType>& nested_structs)
+{
+    const auto is_used = [&](const std::string& name) {
+        return std::any_of(module.assignments.begin(), module.assignments.end(),
+                           [&](const Assignment& assignment) { return assignment.name == name; }) ||
+               std::any_of(nested_structs.begin(), nested_structs.end(),
+                           [&](const NamedType& nested) { return nested.name == name; });
+    };
+
+    std::size_t number = 0;
+    while (is_used(prefix + std::to_string(number)))
+    {
+        number++;
+    }
+
+    const std::string& name = prefix + std::to_string(number);
+    nested_structs.push_back(NamedType{name, type});
+    type = DefinedType{module.module_reference, name, {}};
+}
+
+void split_nested_struct(const Module& module, Type& type, std::vector<NamedType>& nested_structs)
 {
     if (is_set(type))
     {
-        for (ComponentType& component : absl::get<SetType>(absl::get<BuiltinType>(type)).components)
-        {
-            find_nested_structs(module, component.named_type.type, nested_structs);
-        }
+        split_type(module, type, "UnnamedSet", nested_structs);
     }
     else if (is_sequence(type))
     {
-        for (ComponentType& component : absl::get<SequenceType>(absl::get<BuiltinType>(type)).components)
-        {
-            find_nested_structs(module, component.named_type.type, nested_structs);
-        }
+        split_type(module, type, "UnnamedSequence", nested_structs);
     }
-    else if (is_set_of(type))
+    else if (is_enumerated(type))
     {
-        SetOfType& set_of     = absl::get<SetOfType>(absl::get<BuiltinType>(type));
-        Type&      inner_type = set_of.has_name ? set_of.named_type->type : *set_of.type;
-        find_nested_structs(module, inner_type, nested_structs);
+        split_type(module, type, "UnnamedEnum", nested_structs);
+    }
+    else if (is_choice(type))
+    {
+        split_type(module, type, "UnnamedChoice", nested_structs);
+    }
+}
 
-        if (is_set(inner_type))
-        {
-            const std::string& name = "UnnamedSet" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
-        }
-        else if (is_sequence(inner_type))
-        {
-            const std::string& name = "UnnamedSequence" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
-        }
-        else if (is_enumerated(inner_type))
+Type& list_element(Type& type)
+{
+    SequenceOfType& list = is_set_of(type) ? absl::get<SetOfType>(absl::get<BuiltinType>(type)).base()
+                                           : absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
+    return list.has_name ? list.named_type->type : *list.type;
+}
+
+// Does a type (indirectly) contain a definition of the module?
+bool contains(const Module& module, const Type& type, const std::string& name)
+{
+    std::unordered_set<std::string> visited;
+    std::vector<Dependency>         pending = depends_on(type);
+    while (!pending.empty())
+    {
+        const Dependency dependency = pending.back();
+        pending.pop_back();
+        const bool is_local = !dependency.module_reference || *dependency.module_reference == module.module_reference;
+        if (is_local && dependency.name == name)
         {
-            const std::string& name = "UnnamedEnum" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
+            return true;
         }
-        else if (is_choice(inner_type))
+        if (is_local && visited.insert(dependency.name).second)
         {
-            const std::string& name = "UnnamedChoice" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
+            for (const Assignment& assignment : module.assignments)
+            {
+                if (assignment.name == dependency.name && is_type(assignment))
+                {
+                    const std::vector<Dependency>& depends = depends_on(::type(assignment));
+                    pending.insert(pending.end(), depends.begin(), depends.end());
+                }
+            }
         }
     }
-    else if (is_sequence_of(type))
+    return false;
+}
+
+// Finds any types nested within a type which must have a definition of their own
+void find_nested_structs(const Asn1Tree& tree, const Module& module, const std::string& name, Type& type,
+                         std::vector<NamedType>& nested_structs)
+{
+    bool is_tagged_element = false;
+    if (is_set_of(type) || is_sequence_of(type))
     {
-        SequenceOfType& sequence_of = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
-        Type&           inner_type  = sequence_of.has_name ? sequence_of.named_type->type : *sequence_of.type;
+        const Type& element = list_element(type);
+        const Type& base    = resolve_base_type(tree, module, NamedType{{}, element}).type;
+        is_tagged_element   = is_prefixed(element) && (is_generated(base) || is_sequence_of(base) || is_set_of(base));
+    }
 
-        find_nested_structs(module, inner_type, nested_structs);
+    for_each_child(type, [&](Type& child) { find_nested_structs(tree, module, name, child, nested_structs); });
 
-        if (is_set(inner_type))
-        {
-            const std::string& name = "UnnamedSet" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
-        }
-        else if (is_sequence(inner_type))
-        {
-            const std::string& name = "UnnamedSequence" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
-        }
-        else if (is_enumerated(inner_type))
-        {
-            const std::string& name = "UnnamedEnum" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
-        }
-        else if (is_choice(inner_type))
+    if (is_set_of(type) || is_sequence_of(type))
+    {
+        // Elements are encoded and decoded using their own tag, which generated types only have in their own definition
+        if (is_tagged_element)
         {
-            const std::string& name = "UnnamedChoice" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
+            split_type(module, list_element(type), "UnnamedTagged", nested_structs);
         }
+        split_nested_struct(module, list_element(type), nested_structs);
+    }
+    else if (is_prefixed(type))
+    {
+        split_nested_struct(module, absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type,
+                            nested_structs);
     }
     else if (is_choice(type))
     {
-        ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
-        for (NamedType& choice_selection : choice.choices)
+        // A structure which contains the definition it is written in can only be defined after it
+        for (NamedType& child : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
         {
-            Type& inner_type = choice_selection.type;
-            find_nested_structs(module, inner_type, nested_structs);
+            if (contains(module, child.type, name))
+            {
+                split_nested_struct(module, child.type, nested_structs);
+            }
         }
     }
-    else if (is_prefixed(type))
+    else if (is_sequence(type) || is_set(type))
     {
-        Type& inner_type = absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type;
-        find_nested_structs(module, inner_type, nested_structs);
-
-        if (is_set(inner_type))
-        {
-            const std::string& name = "UnnamedSet" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
-        }
-        else if (is_sequence(inner_type))
-        {
-            const std::string& name = "UnnamedSequence" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
-        }
-        else if (is_enumerated(inner_type))
+        Collection& collection = is_sequence(type)
+                                     ? static_cast<Collection&>(absl::get<SequenceType>(absl::get<BuiltinType>(type)))
+                                     : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
+        for (ComponentType& component : collection.components)
         {
-            const std::string& name = "UnnamedEnum" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
-        }
-        else if (is_choice(inner_type))
-        {
-            const std::string& name = "UnnamedChoice" + std::to_string(unnamed_definition_num++);
-            nested_structs.push_back(NamedType{name, inner_type});
-            inner_type = DefinedType{module.module_reference, name, {}};
+            if (component.is_optional && contains(module, component.named_type.type, name))
+            {
+                split_nested_struct(module, component.named_type.type, nested_structs);
+            }
         }
     }
 }
@@ -517,21 +491,23 @@ std::vector<Assignment> split_definitions(const std::vector<Assignment>& assignm
 
 // structs (Sequence and Sets) cannot be defined within other definitions in C++, due to this nested assignments are
 // split into top level assignment statements. Note - assignments are assumed to already have been ordered
-std::vector<Assignment> split_nested_structures(const Module& module)
+std::vector<Assignment> split_nested_structures(const Asn1Tree& tree, const Module& module)
 {
     std::vector<Assignment> split_assignments;
     split_assignments.reserve(module.assignments.size());
 
+    std::vector<NamedType> nested_structs;
     for (Assignment assignment : module.assignments)
     {
         if (absl::holds_alternative<TypeAssignment>(assignment.specific))
         {
-            std::vector<NamedType> nested_structs;
-            find_nested_structs(module, absl::get<TypeAssignment>(assignment.specific).type, nested_structs);
+            const std::size_t previous = nested_structs.size();
+            find_nested_structs(tree, module, assignment.name, type(assignment), nested_structs);
 
-            for (auto nested_iter = nested_structs.rbegin(); nested_iter != nested_structs.rend(); nested_iter++)
+            for (std::size_t i = nested_structs.size(); i > previous; i--)
             {
-                split_assignments.push_back(Assignment{nested_iter->name, TypeAssignment{nested_iter->type}, {}, {}});
+                split_assignments.push_back(
+                    Assignment{nested_structs[i - 1].name, TypeAssignment{nested_structs[i - 1].type}, {}, {}});
             }
         }
         split_assignments.push_back(assignment);
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 12856cb..ad48dba 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -264,10 +264,13 @@ std::string type_as_string(const SequenceType&, const Module&, const Asn1Tree&,
 {
     return type_name;
 }
-std::string type_as_string(const SequenceOfType& sequence, const Module&, const Asn1Tree&, const std::string& type_name,
-                           const std::string& identifier_override)
+std::string type_as_string(const SequenceOfType& sequence, const Module& module, const Asn1Tree& tree,
+                           const std::string& type_name, const std::string& identifier_override)
 {
-    std::string res = "SequenceOf<" + type_name + "Contained";
+    // The element is written out, as a list which (indirectly) contains itself is used before it is defined
+    const Type& element = sequence.has_name ? sequence.named_type->type : *sequence.type;
+    std::string res     = "SequenceOf<" + type_as_string(element, module, tree, type_name + "Contained",
+                                                         identifier(element, module, tree).name());
     if (identifier_override.empty())
     {
         res += ", ExplicitId<UniversalTag::sequence>";
@@ -337,14 +340,20 @@ std::string type_as_string(const UTCTimeType& type, const Module& module, const
 std::string type_as_string(const DefinedType& defined_type, const Module& module, const Asn1Tree& tree,
                            const std::string&, const std::string& identifier_override)
 {
-    if (!identifier_override.empty())
+    const NamedType& base    = resolve_base_type(tree, module, NamedType{{}, defined_type});
+    const bool       is_list = is_sequence_of(base.type) || is_set_of(base.type);
+    // Lists are known by their name where possible, as they may (indirectly) contain themselves
+    const bool is_retagged = !identifier_override.empty() &&
+                             !(is_list && identifier_override == identifier(Type(defined_type), module, tree).name());
+    if (is_retagged)
     {
         NamedType resolved = resolve_type(tree, module.module_reference, defined_type);
         if (!is_generated(resolved.type))
         {
             // Enumerators and list elements are defined along with the type, whatever names it is known by since
-            NamedType base = resolve_base_type(tree, module, NamedType{{}, defined_type});
-            return type_as_string(base.type, module, tree, base.name, identifier_override);
+            return type_as_string(base.type,
+                                  resolve_type_and_module(tree, module.module_reference, defined_type).module, tree,
+                                  base.name, identifier_override);
         }
     }
 
@@ -385,8 +394,7 @@ std::string type_as_string(const Type& type, const Module& module, const Asn1Tre
 }
 
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
-                                 const Asn1Tree& tree, const std::string& identifier_override, bool introduce_type,
-                                 bool is_element)
+                                 const Asn1Tree& tree, const std::string& identifier_override, bool introduce_type)
 {
     CodeBlock block;
 
@@ -411,13 +419,13 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     {
         const SetOfType& sequence = absl::get<SetOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&      type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false, true));
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
     }
     else if (is_sequence_of(assignment_type))
     {
         const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&           type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false, true));
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
     }
     else if (is_set(assignment_type))
     {
@@ -446,8 +454,7 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
         }
 
         const PrefixedType& prefixed = absl::get<PrefixedType>(absl::get<BuiltinType>(assignment_type));
-        block.add_block(
-            create_type_assignment(name, prefixed.tagged_type->type, module, tree, id, introduce_type, is_element));
+        block.add_block(create_type_assignment(name, prefixed.tagged_type->type, module, tree, id, introduce_type));
     }
     else
     {
@@ -472,7 +479,7 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
         const bool is_tagged_generated =
             is_generated(resolve_type(tree, module.module_reference, NamedType{{}, assignment_type}).type) &&
             id != identifier(assignment_type, module, tree).name();
-        if (is_tagged_generated && (introduce_type || is_element))
+        if (is_tagged_generated && introduce_type)
         {
             block.add_line("FAST_BER_TAGGED_ALIAS(" + name + ", " +
                            type_as_string(assignment_type, module, tree, name, id) + ", " + id + ");");
diff --git a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
index e541d20..25b1057 100644
--- a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
+++ b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
@@ -28,7 +28,7 @@ std::vector<Assignment> split_definitions(const std::vector<Assignment>& assignm
 
 // structs (Sequence and Sets) cannot be defined within other definitions in C++, due to this nested assignments are
 // split into top level assignment statements. Note - assignments are assumed to already have been ordered
-std::vector<Assignment> split_nested_structures(const Module& module);
+std::vector<Assignment> split_nested_structures(const Asn1Tree& tree, const Module& module);
 
 void resolve_module_dependencies(const std::unordered_map<std::string, Module>& module_map, const std::string& name,
                                  std::unordered_set<std::string>& assigned_names,
diff --git a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
index 3fcd0f3..62fdec1 100644
--- a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
@@ -117,5 +117,5 @@ inline std::string type_name(const Type& t) { return absl::visit(TypeNameHelper{
 
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
                                  const Asn1Tree& tree, const std::string& identifier_override = {},
-                                 bool introduce_type = true, bool is_element = false);
+                                 bool introduce_type = true);
 CodeBlock create_type_assignment(const Assignment& assignment, const Module& module, const Asn1Tree& tree);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 30c5dcd..1801155 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -267,7 +267,7 @@ int main(int argc, char** argv)
             module.assignments = split_imports(context.asn1_tree, module.assignments, module.imports);
             module.assignments = split_definitions(module.assignments);
             check_duplicated_names(module.assignments, module.module_reference);
-            module.assignments = split_nested_structures(module);
+            module.assignments = split_nested_structures(context.asn1_tree, module);
         }
 
         resolve_components_of(context.asn1_tree);
-- 
2.43.0


From b3954acd3d2484cbc22d83be5e94b7ca1aaca0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 47/59] fix: inline types named like the type they are in
 compile

---
 src/compiler/CppGeneration.cpp                      |  6 ++++++
 src/compiler/GenerateChoice.cpp                     | 13 +++++++------
 .../include/fast_ber/compiler/CppGeneration.hpp     |  3 ++-
 src/compiler/include/fast_ber/compiler/Visit.hpp    | 13 +++++++------
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/compiler/CppGeneration.cpp b/src/compiler/CppGeneration.cpp
index dbe48c1..5cadca5 100644
--- a/src/compiler/CppGeneration.cpp
+++ b/src/compiler/CppGeneration.cpp
@@ -74,6 +74,12 @@ std::string make_type_name(std::string name, absl::string_view parent_name)
     return name;
 }
 
+std::string unqualified_name(const std::string& name)
+{
+    const std::size_t position = name.rfind("::");
+    return position == std::string::npos ? name : name.substr(position + 2);
+}
+
 const std::ostream& CodeBlock::stream(std::ostream& os, std::size_t indentation = 0) const
 {
     for (const CodeBlockContents& content : m_content)
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index 8d60310..c00b47b 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -16,7 +16,7 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
             type_list += ", ";
         is_first = false;
 
-        type_list += make_type_name(named_type.name);
+        type_list += make_type_name(named_type.name, unqualified_name(name));
     }
 
     const auto  id = identifier_override.empty() ? identifier(choice, module, tree).name() : identifier_override;
@@ -30,8 +30,8 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
 
         for (const auto& named_type : choice.choices)
         {
-            block.add_block(
-                create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree, {}, false));
+            block.add_block(create_type_assignment(make_type_name(named_type.name, unqualified_name(name)),
+                                                   named_type.type, module, tree, {}, false));
         }
         block.add_line("using Storage = " + storage + ';');
         block.add_line();
@@ -162,8 +162,9 @@ CodeBlock create_choice_getters(const std::string& name, const ChoiceType& choic
         std::size_t i = 0;
         for (const NamedType& named_type : choice.choices)
         {
-            block.add_line(constness + name + "::" + make_type_name(named_type.name, name) + "& get_impl(" + constness +
-                           name + "& choice, std::integral_constant<std::size_t, " + std::to_string(i) + ">) noexcept");
+            block.add_line(constness + name + "::" + make_type_name(named_type.name, unqualified_name(name)) +
+                           "& get_impl(" + constness + name + "& choice, std::integral_constant<std::size_t, " +
+                           std::to_string(i) + ">) noexcept");
             {
                 CodeScope scope(block);
                 block.add_line("return fast_ber::get<" + std::to_string(i) + ">(choice.impl());");
@@ -219,7 +220,7 @@ CodeBlock create_choice_holds_alternative(const std::string& name, const ChoiceT
         std::size_t i = 0;
         for (const auto& named_type : choice.choices)
         {
-            const std::string choice_type_name = name + "::" + make_type_name(named_type.name);
+            const std::string choice_type_name = name + "::" + make_type_name(named_type.name, unqualified_name(name));
             block.add_line("if (std::is_same<T, " + choice_type_name + ">::value && c.index() == " + std::to_string(i) +
                            ") { return true; }");
             ++i;
diff --git a/src/compiler/include/fast_ber/compiler/CppGeneration.hpp b/src/compiler/include/fast_ber/compiler/CppGeneration.hpp
index 5d80360..3ce4c74 100644
--- a/src/compiler/include/fast_ber/compiler/CppGeneration.hpp
+++ b/src/compiler/include/fast_ber/compiler/CppGeneration.hpp
@@ -16,7 +16,8 @@ std::string create_template_arguments(const std::vector<std::string>& types);
 
 std::string add_namespace(const std::string& name, const std::string& enclosed);
 
-std::string make_type_name(std::string name, absl::string_view parent_name = {});
+std::string make_type_name(std::string name, absl::string_view parent_name);
+std::string unqualified_name(const std::string& name);
 
 struct CodeBlockContents;
 
diff --git a/src/compiler/include/fast_ber/compiler/Visit.hpp b/src/compiler/include/fast_ber/compiler/Visit.hpp
index 3dd4b6c..a63f2cf 100644
--- a/src/compiler/include/fast_ber/compiler/Visit.hpp
+++ b/src/compiler/include/fast_ber/compiler/Visit.hpp
@@ -6,14 +6,15 @@ template <typename Function>
 CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type& type,
                           const std::string& context_namespace, Function&& func)
 {
-    CodeBlock block;
+    CodeBlock         block;
+    const std::string parent = unqualified_name(context_namespace);
 
     if (is_sequence(type))
     {
         const SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type));
         for (const ComponentType& component : sequence.components)
         {
-            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name);
+            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name, parent);
             block.add_block(
                 visit_all_types(tree, module, component.named_type.type, name, std::forward<Function>(func)));
         }
@@ -23,7 +24,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SetType& set = absl::get<SetType>(absl::get<BuiltinType>(type));
         for (const ComponentType& component : set.components)
         {
-            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name);
+            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name, parent);
             block.add_block(
                 visit_all_types(tree, module, component.named_type.type, name, std::forward<Function>(func)));
         }
@@ -33,7 +34,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
         if (sequence.has_name)
         {
-            const std::string name = context_namespace + "::" + make_type_name(sequence.named_type->name);
+            const std::string name = context_namespace + "::" + make_type_name(sequence.named_type->name, parent);
             block.add_block(
                 visit_all_types(tree, module, sequence.named_type->type, name, std::forward<Function>(func)));
         }
@@ -43,7 +44,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SetOfType& set = absl::get<SetOfType>(absl::get<BuiltinType>(type));
         if (set.has_name)
         {
-            const std::string name = context_namespace + "::" + make_type_name(set.named_type->name);
+            const std::string name = context_namespace + "::" + make_type_name(set.named_type->name, parent);
             block.add_block(visit_all_types(tree, module, set.named_type->type, name, std::forward<Function>(func)));
         }
     }
@@ -52,7 +53,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
         for (const NamedType& named_type : choice.choices)
         {
-            const std::string name = context_namespace + "::" + make_type_name(named_type.name);
+            const std::string name = context_namespace + "::" + make_type_name(named_type.name, parent);
             block.add_block(visit_all_types(tree, module, named_type.type, name, std::forward<Function>(func)));
         }
     }
-- 
2.43.0


From 1c2a2acac2271ff34f1cb479bab7a4042a927bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 48/59] fix: names generated code uses itself are renamed like
 C++ keywords

---
 src/compiler/CompilerTypes.cpp | 166 +++++----------------------------
 src/compiler/CppGeneration.cpp |  13 +++
 src/compiler/EncodeDecode.cpp  |   2 +-
 3 files changed, 35 insertions(+), 146 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 20b837c..2c34fbf 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -21,152 +21,28 @@ SequenceOfType& SequenceOfType::operator=(const SequenceOfType& rhs)
 
 static const std::unordered_set<std::string> reserved_keywords = {
     /* C++ */
-    "alignas",
-    "alignof",
-    "and",
-    "and_eq",
-    "asm",
-    "atomic_cancel",
-    "atomic_commit",
-    "atomic_noexcept",
-    "auto",
-    "bitand",
-    "bitor",
-    "bool",
-    "break",
-    "case",
-    "catch",
-    "char",
-    "char8_t",
-    "char16_t",
-    "char32_t",
-    "class",
-    "compl",
-    "concept",
-    "const",
-    "consteval",
-    "constexpr",
-    "const_cast",
-    "continue",
-    "co_await",
-    "co_return",
-    "co_yield",
-    "decltype",
-    "default",
-    "delete",
-    "do",
-    "double",
-    "dynamic_cast",
-    "else",
-    "enum",
-    "explicit",
-    "export",
-    "extern",
-    "false",
-    "float",
-    "for",
-    "friend",
-    "goto",
-    "if",
-    "import",
-    "inline",
-    "int",
-    "long",
-    "module",
-    "mutable",
-    "namespace",
-    "new",
-    "noexcept",
-    "not",
-    "not_eq",
-    "nullptr",
-    "operator",
-    "or",
-    "or_eq",
-    "private",
-    "protected",
-    "public",
-    "reflexpr",
-    "register",
-    "reinterpret_cast",
-    "requires",
-    "return",
-    "short",
-    "signed",
-    "sizeof",
-    "static",
-    "static_assert",
-    "static_cast",
-    "struct",
-    "switch",
-    "synchronized",
-    "template",
-    "this",
-    "thread_local",
-    "throw",
-    "true",
-    "try",
-    "typedef",
-    "typeid",
-    "typename",
-    "union",
-    "unsigned",
-    "using",
-    "virtual",
-    "void",
-    "volatile",
-    "wchar_t",
-    "while",
-    "xor",
-    "xor_eq"
+    "alignas", "alignof", "and", "and_eq", "asm", "atomic_cancel", "atomic_commit", "atomic_noexcept", "auto", "bitand",
+    "bitor", "bool", "break", "case", "catch", "char", "char8_t", "char16_t", "char32_t", "class", "compl", "concept",
+    "const", "consteval", "constexpr", "const_cast", "continue", "co_await", "co_return", "co_yield", "decltype",
+    "default", "delete", "do", "double", "dynamic_cast", "else", "enum", "explicit", "export", "extern", "false",
+    "float", "for", "friend", "goto", "if", "import", "inline", "int", "long", "module", "mutable", "namespace", "new",
+    "noexcept", "not", "not_eq", "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "reflexpr",
+    "register", "reinterpret_cast", "requires", "return", "short", "signed", "sizeof", "static", "static_assert",
+    "static_cast", "struct", "switch", "synchronized", "template", "this", "thread_local", "throw", "true", "try",
+    "typedef", "typeid", "typename", "union", "unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while",
+    "xor", "xor_eq",
+    /* Standard library names used by generated code */
+    "EOF", "errno", "int64_t", "size_t", "uint8_t",
     /* fast_ber*/
-    "BMPString",
-    "BitString",
-    "Boolean",
-    "CharacterString",
-    "Choice",
-    "Date",
-    "DateTime",
-    "Duration",
-    "EmbeddedPDV",
-    "Enumerated",
-    "External",
-    "GeneralString",
-    "GeneralizedTime",
-    "GraphicString",
-    "IA5String",
-    "IRI",
-    "ISO646String",
-    "Id",
-    "Identifier",
-    "InstanceOf",
-    "Integer",
-    "Null",
-    "NumericString",
-    "ObjectIdentifier",
-    "OctetString",
-    "Optional",
-    "Prefixed",
-    "PrintableString",
-    "Real",
-    "RelativeIRI",
-    "RelativeOID",
-    "Sequence",
-    "SequenceOf",
-    "Set",
-    "SetOf",
-    "TaggedType",
-    "TeletexString",
-    "Time",
-    "TimeOfDay",
-    "UTCTime",
-    "UTF8String",
-    "UniversalString",
-    "VideotexString",
-    "VisibleString",
-    "decode",
-    "encode",
-    "encoded_length"};
+    "AcceptedIndex", "AcceptedType", "AsnId", "BMPString", "BerView", "BerViewIterator", "BitString", "Boolean",
+    "CharacterString", "Choice", "ChoiceId", "Choices", "Class", "Construction", "Date", "DateTime", "DecodeResult",
+    "Default", "DoubleId", "Duration", "EmbeddedPDV", "EncodeResult", "Enumerated", "ExactlyOnce", "ExplicitId",
+    "External", "GeneralString", "GeneralizedTime", "GraphicString", "IA5String", "IRI", "ISO646String", "Id",
+    "Identifier", "InstanceOf", "Integer", "IsChoiceId", "Null", "NumericString", "ObjectIdentifier", "OctetString",
+    "Optional", "Prefixed", "PrintableString", "Real", "RelativeIRI", "RelativeOID", "Sequence", "SequenceOf", "Set",
+    "SetOf", "StorageMode", "TaggedType", "TeletexString", "Time", "TimeOfDay", "ToType", "ToTypeImpl", "UTCTime",
+    "UTF8String", "UniversalTag", "UniversalString", "VideotexString", "VisibleString", "decode", "decode_with_id",
+    "encode", "encode_with_id", "encoded_length", "encoded_length_with_id"};
 
 // Switch asn '-' for C++ '_'
 // Rename any names which are reserved in C++
diff --git a/src/compiler/CppGeneration.cpp b/src/compiler/CppGeneration.cpp
index 5cadca5..daea98b 100644
--- a/src/compiler/CppGeneration.cpp
+++ b/src/compiler/CppGeneration.cpp
@@ -2,6 +2,7 @@
 
 #include <cctype>
 #include <sstream>
+#include <unordered_set>
 
 std::string create_include(const std::string& path) { return "#include \"" + path + "\"\n"; }
 
@@ -62,11 +63,23 @@ std::string add_namespace(const std::string& name, const std::string& enclosed)
     return output;
 }
 
+// Names which generated classes use themselves, types declared inside of the class may not be called the same
+static const std::unordered_set<std::string> reserved_member_types = {
+    "AcceptedIndex", "AcceptedType", "AsnId",      "BerView",      "BerViewIterator", "Choices",
+    "Class",         "Construction", "Default",    "DecodeResult", "DoubleId",        "EOF",
+    "EncodeResult",  "ExactlyOnce",  "ExplicitId", "Id",           "Optional",        "SequenceOf",
+    "Storage",       "StorageMode",  "ToType",     "ToTypeImpl",   "UniversalTag",    "ChoiceId",
+    "IsChoiceId"};
+
 // Creates a C++ type following conventions of project (ie starts with capital letter)
 std::string make_type_name(std::string name, absl::string_view parent_name)
 {
     assert(!name.empty());
     name[0] = std::toupper(name[0]);
+    if (reserved_member_types.count(name) > 0)
+    {
+        name += '_';
+    }
     if (name == parent_name) // C++ types may not share a name with their enclosing class
     {
         return name + '_';
diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index e1002d6..8a8bc5b 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -51,7 +51,7 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
 
         for (const ComponentType& component : collection.components)
         {
-            block.add_line("res = " + component.named_type.name + "." +
+            block.add_line("res = this->" + component.named_type.name + "." +
                            make_component_function("encode", component.named_type, module, tree) + "(content);");
             block.add_line("if (!res.success)");
             {
-- 
2.43.0


From 50aa80be11c896241782ee6cc9f4718b31e2b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 49/59] fix: end every compiler run with output or a diagnostic

Unterminated comments and strings at the end of the input were read past its end, octets behind a NUL were ignored,
output files were truncated before errors were known and failures to write them were not reported. The checked in
parser is generated again.
---
 src/compiler/asn_compiler.yacc             |     8 +-
 src/compiler/autogen_copy/asn_compiler.hpp | 26226 ++++++++++---------
 src/compiler_main/CompilerMain.cpp         |    54 +-
 3 files changed, 13331 insertions(+), 12957 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index d58ac99..f6998df 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1922,18 +1922,18 @@ re2c:define:YYCURSOR = "context_.cursor";
 "WITH"                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
 
 // Comments
-"--" ([\-]?[^\r\n\-])* "--"
+"--" ([\-]?[^\r\n\-\000])* "--"
                         { context_.location.columns(context_.cursor - start); return yylex(context_); }
-"--" ([\-]?[^\r\n\-])*[\-]?
+"--" ([\-]?[^\r\n\-\000])*[\-]?
                         { context_.location.columns(context_.cursor - start); return yylex(context_); }
-"/*" ([^\*]|([\*]+[^\*\/]))*[\*]+ "/"
+"/*" ([^\*\000]|([\*]+[^\*\/\000]))*[\*]+ "/"
                         { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
 
 // Identifiers
 [0-9]+'\.'[0-9]+        { context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
 [0-9]+                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
 "-"[0-9]+               { context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-['\"']('\\'.|"\"\""|[^'\"'])*['\"']
+['\"']('\\'[^\n\000]|"\"\""|[^'\"'\000])*['\"']
                         { context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
 ['\'']('0'|'1')*['\'']"B"
                         { context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 4836f13..a2e8013 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -1,10 +1,10 @@
-/* Generated by re2c 2.0.3 */
-#line 1 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-// A Bison parser, made by GNU Bison 3.3.2.
+/* Generated by re2c 3.1 */
+#line 1 "asn_compiler.re"
+// A Bison parser, made by GNU Bison 3.8.2.
 
 // Skeleton implementation for Bison LALR(1) parsers in C++
 
-// Copyright (C) 2002-2015, 2018-2019 Free Software Foundation, Inc.
+// Copyright (C) 2002-2015, 2018-2021 Free Software Foundation, Inc.
 
 // This program is free software: you can redistribute it and/or modify
 // it under the terms of the GNU General Public License as published by
@@ -17,7 +17,7 @@
 // GNU General Public License for more details.
 
 // You should have received a copy of the GNU General Public License
-// along with this program.  If not, see <http://www.gnu.org/licenses/>.
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 // As a special exception, you may create a larger work that contains
 // part or all of the Bison parser skeleton and distribute that work
@@ -32,20 +32,19 @@
 // This special exception was added by the Free Software Foundation in
 // version 2.2 of Bison.
 
-// Undocumented macros, especially those whose name start with YY_,
-// are private implementation details.  Do not rely on them.
+// DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+// especially those whose name start with YY_ or yy_.  They are
+// private implementation details that can be changed or removed.
 
 
 
 
 
-// //                    "%code requires" blocks.
-#line 10 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:431
+// "%code requires" blocks.
 
     #include "fast_ber/compiler/CompilerTypes.hpp"
     #include "fast_ber/compiler/Logging.hpp"
 
-#line 47 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:431
 
 # include <cassert>
 # include <cstdlib> // std::abort
@@ -92,44 +91,48 @@
 #endif
 
 #include <typeinfo>
-#ifndef YYASSERT
+#ifndef YY_ASSERT
 # include <cassert>
-# define YYASSERT assert
+# define YY_ASSERT assert
 #endif
 
 
-#ifndef YY_ATTRIBUTE
-# if (defined __GNUC__                                               \
-      && (2 < __GNUC__ || (__GNUC__ == 2 && 96 <= __GNUC_MINOR__)))  \
-     || defined __SUNPRO_C && 0x5110 <= __SUNPRO_C
-#  define YY_ATTRIBUTE(Spec) __attribute__(Spec)
+#ifndef YY_ATTRIBUTE_PURE
+# if defined __GNUC__ && 2 < __GNUC__ + (96 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_PURE __attribute__ ((__pure__))
 # else
-#  define YY_ATTRIBUTE(Spec) /* empty */
+#  define YY_ATTRIBUTE_PURE
 # endif
 #endif
 
-#ifndef YY_ATTRIBUTE_PURE
-# define YY_ATTRIBUTE_PURE   YY_ATTRIBUTE ((__pure__))
-#endif
-
 #ifndef YY_ATTRIBUTE_UNUSED
-# define YY_ATTRIBUTE_UNUSED YY_ATTRIBUTE ((__unused__))
+# if defined __GNUC__ && 2 < __GNUC__ + (7 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_UNUSED __attribute__ ((__unused__))
+# else
+#  define YY_ATTRIBUTE_UNUSED
+# endif
 #endif
 
 /* Suppress unused-variable warnings by "using" E.  */
 #if ! defined lint || defined __GNUC__
-# define YYUSE(E) ((void) (E))
+# define YY_USE(E) ((void) (E))
 #else
-# define YYUSE(E) /* empty */
+# define YY_USE(E) /* empty */
 #endif
 
-#if defined __GNUC__ && ! defined __ICC && 407 <= __GNUC__ * 100 + __GNUC_MINOR__
 /* Suppress an incorrect diagnostic about yylval being uninitialized.  */
-# define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN \
-    _Pragma ("GCC diagnostic push") \
-    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")\
+#if defined __GNUC__ && ! defined __ICC && 406 <= __GNUC__ * 100 + __GNUC_MINOR__
+# if __GNUC__ * 100 + __GNUC_MINOR__ < 407
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")
+# else
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")              \
     _Pragma ("GCC diagnostic ignored \"-Wmaybe-uninitialized\"")
-# define YY_IGNORE_MAYBE_UNINITIALIZED_END \
+# endif
+# define YY_IGNORE_MAYBE_UNINITIALIZED_END      \
     _Pragma ("GCC diagnostic pop")
 #else
 # define YY_INITIAL_VALUE(Value) Value
@@ -142,6 +145,27 @@
 # define YY_INITIAL_VALUE(Value) /* Nothing. */
 #endif
 
+#if defined __cplusplus && defined __GNUC__ && ! defined __ICC && 6 <= __GNUC__
+# define YY_IGNORE_USELESS_CAST_BEGIN                          \
+    _Pragma ("GCC diagnostic push")                            \
+    _Pragma ("GCC diagnostic ignored \"-Wuseless-cast\"")
+# define YY_IGNORE_USELESS_CAST_END            \
+    _Pragma ("GCC diagnostic pop")
+#endif
+#ifndef YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_END
+#endif
+
+# ifndef YY_CAST
+#  ifdef __cplusplus
+#   define YY_CAST(Type, Val) static_cast<Type> (Val)
+#   define YY_REINTERPRET_CAST(Type, Val) reinterpret_cast<Type> (Val)
+#  else
+#   define YY_CAST(Type, Val) ((Type) (Val))
+#   define YY_REINTERPRET_CAST(Type, Val) ((Type) (Val))
+#  endif
+# endif
 # ifndef YY_NULLPTR
 #  if defined __cplusplus
 #   if 201103L <= __cplusplus
@@ -159,18 +183,22 @@
 # define YYDEBUG 1
 #endif
 
-
 namespace yy {
-#line 163 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:431
+
 
   /// A point in a source file.
   class position
   {
   public:
+    /// Type for file name.
+    typedef const std::string filename_type;
+    /// Type for line and column numbers.
+    typedef int counter_type;
+
     /// Construct a position.
-    explicit position (std::string* f = YY_NULLPTR,
-                       unsigned l = 1u,
-                       unsigned c = 1u)
+    explicit position (filename_type* f = YY_NULLPTR,
+                       counter_type l = 1,
+                       counter_type c = 1)
       : filename (f)
       , line (l)
       , column (c)
@@ -178,9 +206,9 @@ namespace yy {
 
 
     /// Initialization.
-    void initialize (std::string* fn = YY_NULLPTR,
-                     unsigned l = 1u,
-                     unsigned c = 1u)
+    void initialize (filename_type* fn = YY_NULLPTR,
+                     counter_type l = 1,
+                     counter_type c = 1)
     {
       filename = fn;
       line = l;
@@ -190,41 +218,40 @@ namespace yy {
     /** \name Line and Column related manipulators
      ** \{ */
     /// (line related) Advance to the COUNT next lines.
-    void lines (int count = 1)
+    void lines (counter_type count = 1)
     {
       if (count)
         {
-          column = 1u;
+          column = 1;
           line = add_ (line, count, 1);
         }
     }
 
     /// (column related) Advance to the COUNT next columns.
-    void columns (int count = 1)
+    void columns (counter_type count = 1)
     {
       column = add_ (column, count, 1);
     }
     /** \} */
 
     /// File name to which this position refers.
-    std::string* filename;
+    filename_type* filename;
     /// Current line number.
-    unsigned line;
+    counter_type line;
     /// Current column number.
-    unsigned column;
+    counter_type column;
 
   private:
     /// Compute max (min, lhs+rhs).
-    static unsigned add_ (unsigned lhs, int rhs, int min)
+    static counter_type add_ (counter_type lhs, counter_type rhs, counter_type min)
     {
-      return static_cast<unsigned> (std::max (min,
-                                              static_cast<int> (lhs) + rhs));
+      return lhs + rhs < min ? min : lhs + rhs;
     }
   };
 
   /// Add \a width columns, in place.
   inline position&
-  operator+= (position& res, int width)
+  operator+= (position& res, position::counter_type width)
   {
     res.columns (width);
     return res;
@@ -232,43 +259,25 @@ namespace yy {
 
   /// Add \a width columns.
   inline position
-  operator+ (position res, int width)
+  operator+ (position res, position::counter_type width)
   {
     return res += width;
   }
 
   /// Subtract \a width columns, in place.
   inline position&
-  operator-= (position& res, int width)
+  operator-= (position& res, position::counter_type width)
   {
     return res += -width;
   }
 
   /// Subtract \a width columns.
   inline position
-  operator- (position res, int width)
+  operator- (position res, position::counter_type width)
   {
     return res -= width;
   }
 
-  /// Compare two position objects.
-  inline bool
-  operator== (const position& pos1, const position& pos2)
-  {
-    return (pos1.line == pos2.line
-            && pos1.column == pos2.column
-            && (pos1.filename == pos2.filename
-                || (pos1.filename && pos2.filename
-                    && *pos1.filename == *pos2.filename)));
-  }
-
-  /// Compare two position objects.
-  inline bool
-  operator!= (const position& pos1, const position& pos2)
-  {
-    return !(pos1 == pos2);
-  }
-
   /** \brief Intercept output stream redirection.
    ** \param ostr the destination output stream
    ** \param pos a reference to the position to redirect
@@ -286,6 +295,10 @@ namespace yy {
   class location
   {
   public:
+    /// Type for file name.
+    typedef position::filename_type filename_type;
+    /// Type for line and column numbers.
+    typedef position::counter_type counter_type;
 
     /// Construct a location from \a b to \a e.
     location (const position& b, const position& e)
@@ -300,18 +313,18 @@ namespace yy {
     {}
 
     /// Construct a 0-width location in \a f, \a l, \a c.
-    explicit location (std::string* f,
-                       unsigned l = 1u,
-                       unsigned c = 1u)
+    explicit location (filename_type* f,
+                       counter_type l = 1,
+                       counter_type c = 1)
       : begin (f, l, c)
       , end (f, l, c)
     {}
 
 
     /// Initialization.
-    void initialize (std::string* f = YY_NULLPTR,
-                     unsigned l = 1u,
-                     unsigned c = 1u)
+    void initialize (filename_type* f = YY_NULLPTR,
+                     counter_type l = 1,
+                     counter_type c = 1)
     {
       begin.initialize (f, l, c);
       end = begin;
@@ -327,13 +340,13 @@ namespace yy {
     }
 
     /// Extend the current location to the COUNT next columns.
-    void columns (int count = 1)
+    void columns (counter_type count = 1)
     {
       end += count;
     }
 
     /// Extend the current location to the COUNT next lines.
-    void lines (int count = 1)
+    void lines (counter_type count = 1)
     {
       end.lines (count);
     }
@@ -348,57 +361,49 @@ namespace yy {
   };
 
   /// Join two locations, in place.
-  inline location& operator+= (location& res, const location& end)
+  inline location&
+  operator+= (location& res, const location& end)
   {
     res.end = end.end;
     return res;
   }
 
   /// Join two locations.
-  inline location operator+ (location res, const location& end)
+  inline location
+  operator+ (location res, const location& end)
   {
     return res += end;
   }
 
   /// Add \a width columns to the end position, in place.
-  inline location& operator+= (location& res, int width)
+  inline location&
+  operator+= (location& res, location::counter_type width)
   {
     res.columns (width);
     return res;
   }
 
   /// Add \a width columns to the end position.
-  inline location operator+ (location res, int width)
+  inline location
+  operator+ (location res, location::counter_type width)
   {
     return res += width;
   }
 
   /// Subtract \a width columns to the end position, in place.
-  inline location& operator-= (location& res, int width)
+  inline location&
+  operator-= (location& res, location::counter_type width)
   {
     return res += -width;
   }
 
   /// Subtract \a width columns to the end position.
-  inline location operator- (location res, int width)
+  inline location
+  operator- (location res, location::counter_type width)
   {
     return res -= width;
   }
 
-  /// Compare two location objects.
-  inline bool
-  operator== (const location& loc1, const location& loc2)
-  {
-    return loc1.begin == loc2.begin && loc1.end == loc2.end;
-  }
-
-  /// Compare two location objects.
-  inline bool
-  operator!= (const location& loc1, const location& loc2)
-  {
-    return !(loc1 == loc2);
-  }
-
   /** \brief Intercept output stream redirection.
    ** \param ostr the destination output stream
    ** \param loc a reference to the location to redirect
@@ -409,7 +414,8 @@ namespace yy {
   std::basic_ostream<YYChar>&
   operator<< (std::basic_ostream<YYChar>& ostr, const location& loc)
   {
-    unsigned end_col = 0 < loc.end.column ? loc.end.column - 1 : 0;
+    location::counter_type end_col
+      = 0 < loc.end.column ? loc.end.column - 1 : 0;
     ostr << loc.begin;
     if (loc.end.filename
         && (!loc.begin.filename
@@ -427,37 +433,49 @@ namespace yy {
   class asn1_parser
   {
   public:
-#ifndef YYSTYPE
+#ifdef YYSTYPE
+# ifdef __GNUC__
+#  pragma GCC message "bison: do not #define YYSTYPE in C++, use %define api.value.type"
+# endif
+    typedef YYSTYPE value_type;
+#else
   /// A buffer to store and retrieve objects.
   ///
   /// Sort of a variant, but does not keep track of the nature
   /// of the stored data, since that knowledge is available
   /// via the current parser state.
-  class semantic_type
+  class value_type
   {
   public:
     /// Type of *this.
-    typedef semantic_type self_type;
+    typedef value_type self_type;
 
     /// Empty construction.
-    semantic_type () YY_NOEXCEPT
-      : yybuffer_ ()
+    value_type () YY_NOEXCEPT
+      : yyraw_ ()
       , yytypeid_ (YY_NULLPTR)
     {}
 
     /// Construct and fill.
     template <typename T>
-    semantic_type (YY_RVREF (T) t)
+    value_type (YY_RVREF (T) t)
       : yytypeid_ (&typeid (T))
     {
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (sizeof (T) <= size);
       new (yyas_<T> ()) T (YY_MOVE (t));
     }
 
+#if 201103L <= YY_CPLUSPLUS
+    /// Non copyable.
+    value_type (const self_type&) = delete;
+    /// Non copyable.
+    self_type& operator= (const self_type&) = delete;
+#endif
+
     /// Destruction, allowed only if empty.
-    ~semantic_type () YY_NOEXCEPT
+    ~value_type () YY_NOEXCEPT
     {
-      YYASSERT (!yytypeid_);
+      YY_ASSERT (!yytypeid_);
     }
 
 # if 201103L <= YY_CPLUSPLUS
@@ -466,8 +484,8 @@ namespace yy {
     T&
     emplace (U&&... u)
     {
-      YYASSERT (!yytypeid_);
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (!yytypeid_);
+      YY_ASSERT (sizeof (T) <= size);
       yytypeid_ = & typeid (T);
       return *new (yyas_<T> ()) T (std::forward <U>(u)...);
     }
@@ -477,8 +495,8 @@ namespace yy {
     T&
     emplace ()
     {
-      YYASSERT (!yytypeid_);
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (!yytypeid_);
+      YY_ASSERT (sizeof (T) <= size);
       yytypeid_ = & typeid (T);
       return *new (yyas_<T> ()) T ();
     }
@@ -488,8 +506,8 @@ namespace yy {
     T&
     emplace (const T& t)
     {
-      YYASSERT (!yytypeid_);
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (!yytypeid_);
+      YY_ASSERT (sizeof (T) <= size);
       yytypeid_ = & typeid (T);
       return *new (yyas_<T> ()) T (t);
     }
@@ -518,9 +536,9 @@ namespace yy {
     T&
     as () YY_NOEXCEPT
     {
-      YYASSERT (yytypeid_);
-      YYASSERT (*yytypeid_ == typeid (T));
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (yytypeid_);
+      YY_ASSERT (*yytypeid_ == typeid (T));
+      YY_ASSERT (sizeof (T) <= size);
       return *yyas_<T> ();
     }
 
@@ -529,9 +547,9 @@ namespace yy {
     const T&
     as () const YY_NOEXCEPT
     {
-      YYASSERT (yytypeid_);
-      YYASSERT (*yytypeid_ == typeid (T));
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (yytypeid_);
+      YY_ASSERT (*yytypeid_ == typeid (T));
+      YY_ASSERT (sizeof (T) <= size);
       return *yyas_<T> ();
     }
 
@@ -547,8 +565,8 @@ namespace yy {
     void
     swap (self_type& that) YY_NOEXCEPT
     {
-      YYASSERT (yytypeid_);
-      YYASSERT (*yytypeid_ == *that.yytypeid_);
+      YY_ASSERT (yytypeid_);
+      YY_ASSERT (*yytypeid_ == *that.yytypeid_);
       std::swap (as<T> (), that.as<T> ());
     }
 
@@ -597,16 +615,19 @@ namespace yy {
     }
 
   private:
-    /// Prohibit blind copies.
+#if YY_CPLUSPLUS < 201103L
+    /// Non copyable.
+    value_type (const self_type&);
+    /// Non copyable.
     self_type& operator= (const self_type&);
-    semantic_type (const self_type&);
+#endif
 
     /// Accessor to raw memory as \a T.
     template <typename T>
     T*
     yyas_ () YY_NOEXCEPT
     {
-      void *yyp = yybuffer_.yyraw;
+      void *yyp = yyraw_;
       return static_cast<T*> (yyp);
      }
 
@@ -615,7 +636,7 @@ namespace yy {
     const T*
     yyas_ () const YY_NOEXCEPT
     {
-      const void *yyp = yybuffer_.yyraw;
+      const void *yyp = yyraw_;
       return static_cast<const T*> (yyp);
      }
 
@@ -890,18 +911,19 @@ namespace yy {
     union
     {
       /// Strongest alignment constraints.
-      long double yyalign_me;
+      long double yyalign_me_;
       /// A buffer large enough to store any of the semantic values.
-      char yyraw[size];
-    } yybuffer_;
+      char yyraw_[size];
+    };
 
     /// Whether the content is built: if defined, the name of the stored type.
     const std::type_info *yytypeid_;
   };
 
-#else
-    typedef YYSTYPE semantic_type;
 #endif
+    /// Backward compatibility (Bison 3.8).
+    typedef value_type semantic_type;
+
     /// Symbol locations.
     typedef location location_type;
 
@@ -923,178 +945,571 @@ namespace yy {
       location_type location;
     };
 
-    /// Tokens.
+    /// Token kinds.
     struct token
     {
-      enum yytokentype
-      {
-        END_OF_FILE = 0,
-        comment = 258,
-        number = 259,
-        negativenumber = 260,
-        realnumber = 261,
-        bstring = 262,
-        xmlbstring = 263,
-        hstring = 264,
-        xmlhstring = 265,
-        cstring = 266,
-        xmlcstring = 267,
-        simplestring = 268,
-        xmltstring = 269,
-        psname = 270,
-        encodingreference = 271,
-        integerUnicodeLabel = 272,
-        tstring = 275,
-        objectreference = 277,
-        objectsetreference = 278,
-        typefieldreference = 279,
-        valuefieldreference = 280,
-        valuesetfieldreference = 281,
-        objectfieldreference = 282,
-        objectsetfieldreference = 283,
-        ABSENT = 284,
-        ABSTRACT_SYNTAX = 285,
-        ALL = 286,
-        ANY = 287,
-        APPLICATION = 288,
-        ASN_NULL = 289,
-        AUTOMATIC = 290,
-        BEGIN = 291,
-        BIT = 292,
-        BMPString = 293,
-        BOOLEAN = 294,
-        BY = 295,
-        CHARACTER = 296,
-        CHOICE = 297,
-        CLASS = 298,
-        COMPONENT = 299,
-        COMPONENTS = 300,
-        CONSTRAINED = 301,
-        CONTAINING = 302,
-        DATE = 303,
-        DATE_TIME = 304,
-        DEFAULT = 305,
-        DEFINITIONS = 306,
-        DURATION = 307,
-        EMBEDDED = 308,
-        ENCODED = 309,
-        ENCODING_CONTROL = 310,
-        END = 311,
-        ENUMERATED = 312,
-        EXCEPT = 313,
-        EXPLICIT = 314,
-        EXPORTS = 315,
-        EXTENSIBILITY = 316,
-        EXTERNAL = 317,
-        FALSE = 318,
-        FROM = 319,
-        GeneralizedTime = 320,
-        GeneralString = 321,
-        GraphicString = 322,
-        IA5String = 323,
-        IDENTIFIER = 324,
-        IMPLICIT = 325,
-        IMPLIED = 326,
-        IMPORTS = 327,
-        INCLUDES = 328,
-        INSTANCE = 329,
-        INSTRUCTIONS = 330,
-        INTEGER = 331,
-        INTERSECTION = 332,
-        ISO646String = 333,
-        MAX = 334,
-        MIN = 335,
-        MINUS_INFINITY = 336,
-        NOT_A_NUMBER = 337,
-        NumericString = 338,
-        OBJECT = 339,
-        ObjectDescriptor = 340,
-        OCTET = 341,
-        OF = 342,
-        OID_IRI = 343,
-        OPTIONAL = 344,
-        PATTERN = 345,
-        PDV = 346,
-        PLUS_INFINITY = 347,
-        PRESENT = 348,
-        PrintableString = 349,
-        PRIVATE = 350,
-        REAL = 351,
-        RELATIVE_OID = 352,
-        RELATIVE_OID_IRI = 353,
-        SEQUENCE = 354,
-        SET = 355,
-        SETTINGS = 356,
-        SIZE = 357,
-        STRING = 358,
-        SYNTAX = 359,
-        T61String = 360,
-        TAGS = 361,
-        TeletexString = 362,
-        TIME = 363,
-        TIME_OF_DAY = 364,
-        TRUE = 365,
-        TYPE_IDENTIFIER = 366,
-        UNION = 367,
-        UNIQUE = 368,
-        UNIVERSAL = 369,
-        UniversalString = 370,
-        UTCTime = 371,
-        UTF8String = 372,
-        VideotexString = 373,
-        VisibleString = 374,
-        WITH = 375,
-        DEFINED_AS = 376,
-        ELIPSIS = 377,
-        RANGE = 378,
-        OPEN_BRACE = 379,
-        CLOSE_BRACE = 380,
-        OPEN_PARENTHESIS = 381,
-        CLOSE_PARENTHESIS = 382,
-        OPEN_SQUARE_BRACKET = 383,
-        CLOSE_SQUARE_BRACKET = 384,
-        LESS_THAN = 385,
-        GREATER_THAN = 386,
-        EXCLAMATION_MARK = 387,
-        QUOTATION_MARK = 388,
-        AMPERSAND = 389,
-        APOSTROPHE = 390,
-        ASTERISK = 391,
-        COMMA = 392,
-        FULL_STOP = 393,
-        HYPHEN_MINUS = 394,
-        SOLIDUS = 395,
-        COLON = 396,
-        SEMICOLON = 397,
-        EQUALS_SIGN = 398,
-        AT = 399,
-        VERTICAL_LINE = 400,
-        ACCENT = 401,
-        PLUS = 402,
-        STAR = 403,
-        GENERIC_IDENTIFIER_UPPERCASE = 404,
-        GENERIC_IDENTIFIER_LOWERCASE = 405,
-        GENERIC_INTEGER = 406,
-        xmlasn1typename = 407
+      enum token_kind_type
+      {
+        YYEMPTY = -2,
+    END_OF_FILE = 0,               // END_OF_FILE
+    YYerror = 256,                 // error
+    YYUNDEF = 257,                 // "invalid token"
+    comment = 258,                 // comment
+    number = 259,                  // number
+    negativenumber = 260,          // negativenumber
+    realnumber = 261,              // realnumber
+    bstring = 262,                 // bstring
+    xmlbstring = 263,              // xmlbstring
+    hstring = 264,                 // hstring
+    xmlhstring = 265,              // xmlhstring
+    cstring = 266,                 // cstring
+    xmlcstring = 267,              // xmlcstring
+    simplestring = 268,            // simplestring
+    xmltstring = 269,              // xmltstring
+    psname = 270,                  // psname
+    encodingreference = 271,       // encodingreference
+    integerUnicodeLabel = 272,     // integerUnicodeLabel
+    tstring = 275,                 // tstring
+    objectreference = 277,         // objectreference
+    objectsetreference = 278,      // objectsetreference
+    typefieldreference = 279,      // typefieldreference
+    valuefieldreference = 280,     // valuefieldreference
+    valuesetfieldreference = 281,  // valuesetfieldreference
+    objectfieldreference = 282,    // objectfieldreference
+    objectsetfieldreference = 283, // objectsetfieldreference
+    ABSENT = 284,                  // ABSENT
+    ABSTRACT_SYNTAX = 285,         // ABSTRACT_SYNTAX
+    ALL = 286,                     // ALL
+    ANY = 287,                     // ANY
+    APPLICATION = 288,             // APPLICATION
+    ASN_NULL = 289,                // ASN_NULL
+    AUTOMATIC = 290,               // AUTOMATIC
+    BEGIN = 291,                   // BEGIN
+    BIT = 292,                     // BIT
+    BMPString = 293,               // BMPString
+    BOOLEAN = 294,                 // BOOLEAN
+    BY = 295,                      // BY
+    CHARACTER = 296,               // CHARACTER
+    CHOICE = 297,                  // CHOICE
+    CLASS = 298,                   // CLASS
+    COMPONENT = 299,               // COMPONENT
+    COMPONENTS = 300,              // COMPONENTS
+    CONSTRAINED = 301,             // CONSTRAINED
+    CONTAINING = 302,              // CONTAINING
+    DATE = 303,                    // DATE
+    DATE_TIME = 304,               // DATE_TIME
+    DEFAULT = 305,                 // DEFAULT
+    DEFINITIONS = 306,             // DEFINITIONS
+    DURATION = 307,                // DURATION
+    EMBEDDED = 308,                // EMBEDDED
+    ENCODED = 309,                 // ENCODED
+    ENCODING_CONTROL = 310,        // ENCODING_CONTROL
+    END = 311,                     // END
+    ENUMERATED = 312,              // ENUMERATED
+    EXCEPT = 313,                  // EXCEPT
+    EXPLICIT = 314,                // EXPLICIT
+    EXPORTS = 315,                 // EXPORTS
+    EXTENSIBILITY = 316,           // EXTENSIBILITY
+    EXTERNAL = 317,                // EXTERNAL
+    FALSE = 318,                   // FALSE
+    FROM = 319,                    // FROM
+    GeneralizedTime = 320,         // GeneralizedTime
+    GeneralString = 321,           // GeneralString
+    GraphicString = 322,           // GraphicString
+    IA5String = 323,               // IA5String
+    IDENTIFIER = 324,              // IDENTIFIER
+    IMPLICIT = 325,                // IMPLICIT
+    IMPLIED = 326,                 // IMPLIED
+    IMPORTS = 327,                 // IMPORTS
+    INCLUDES = 328,                // "INCLUDES"
+    INSTANCE = 329,                // INSTANCE
+    INSTRUCTIONS = 330,            // INSTRUCTIONS
+    INTEGER = 331,                 // INTEGER
+    INTERSECTION = 332,            // INTERSECTION
+    ISO646String = 333,            // ISO646String
+    MAX = 334,                     // MAX
+    MIN = 335,                     // MIN
+    MINUS_INFINITY = 336,          // MINUS_INFINITY
+    NOT_A_NUMBER = 337,            // NOT_A_NUMBER
+    NumericString = 338,           // NumericString
+    OBJECT = 339,                  // OBJECT
+    ObjectDescriptor = 340,        // ObjectDescriptor
+    OCTET = 341,                   // OCTET
+    OF = 342,                      // OF
+    OID_IRI = 343,                 // OID_IRI
+    OPTIONAL = 344,                // OPTIONAL
+    PATTERN = 345,                 // PATTERN
+    PDV = 346,                     // PDV
+    PLUS_INFINITY = 347,           // PLUS_INFINITY
+    PRESENT = 348,                 // PRESENT
+    PrintableString = 349,         // PrintableString
+    PRIVATE = 350,                 // PRIVATE
+    REAL = 351,                    // REAL
+    RELATIVE_OID = 352,            // RELATIVE_OID
+    RELATIVE_OID_IRI = 353,        // RELATIVE_OID_IRI
+    SEQUENCE = 354,                // SEQUENCE
+    SET = 355,                     // SET
+    SETTINGS = 356,                // SETTINGS
+    SIZE = 357,                    // SIZE
+    STRING = 358,                  // STRING
+    SYNTAX = 359,                  // SYNTAX
+    T61String = 360,               // T61String
+    TAGS = 361,                    // TAGS
+    TeletexString = 362,           // TeletexString
+    TIME = 363,                    // TIME
+    TIME_OF_DAY = 364,             // TIME_OF_DAY
+    TRUE = 365,                    // TRUE
+    TYPE_IDENTIFIER = 366,         // TYPE_IDENTIFIER
+    UNION = 367,                   // UNION
+    UNIQUE = 368,                  // UNIQUE
+    UNIVERSAL = 369,               // UNIVERSAL
+    UniversalString = 370,         // UniversalString
+    UTCTime = 371,                 // UTCTime
+    UTF8String = 372,              // UTF8String
+    VideotexString = 373,          // VideotexString
+    VisibleString = 374,           // VisibleString
+    WITH = 375,                    // WITH
+    DEFINED_AS = 376,              // "::="
+    ELIPSIS = 377,                 // "..."
+    RANGE = 378,                   // ".."
+    OPEN_BRACE = 379,              // "{"
+    CLOSE_BRACE = 380,             // "}"
+    OPEN_PARENTHESIS = 381,        // "("
+    CLOSE_PARENTHESIS = 382,       // ")"
+    OPEN_SQUARE_BRACKET = 383,     // "["
+    CLOSE_SQUARE_BRACKET = 384,    // "]"
+    LESS_THAN = 385,               // "<"
+    GREATER_THAN = 386,            // ">"
+    EXCLAMATION_MARK = 387,        // "!"
+    QUOTATION_MARK = 388,          // "\""
+    AMPERSAND = 389,               // "&"
+    APOSTROPHE = 390,              // "\'"
+    ASTERISK = 391,                // "*"
+    COMMA = 392,                   // ","
+    FULL_STOP = 393,               // "."
+    HYPHEN_MINUS = 394,            // "-"
+    SOLIDUS = 395,                 // "/"
+    COLON = 396,                   // ":"
+    SEMICOLON = 397,               // ";"
+    EQUALS_SIGN = 398,             // "="
+    AT = 399,                      // "@"
+    VERTICAL_LINE = 400,           // "|"
+    ACCENT = 401,                  // "^"
+    PLUS = 402,                    // PLUS
+    STAR = 403,                    // STAR
+    GENERIC_IDENTIFIER_UPPERCASE = 404, // GENERIC_IDENTIFIER_UPPERCASE
+    GENERIC_IDENTIFIER_LOWERCASE = 405, // GENERIC_IDENTIFIER_LOWERCASE
+    GENERIC_INTEGER = 406,         // GENERIC_INTEGER
+    xmlasn1typename = 407          // xmlasn1typename
       };
+      /// Backward compatibility alias (Bison 3.6).
+      typedef token_kind_type yytokentype;
     };
 
-    /// (External) token type, as returned by yylex.
-    typedef token::yytokentype token_type;
+    /// Token kind, as returned by yylex.
+    typedef token::token_kind_type token_kind_type;
 
-    /// Symbol type: an internal symbol number.
-    typedef int symbol_number_type;
+    /// Backward compatibility alias (Bison 3.6).
+    typedef token_kind_type token_type;
 
-    /// The symbol type number to denote an empty symbol.
-    enum { empty_symbol = -2 };
+    /// Symbol kinds.
+    struct symbol_kind
+    {
+      enum symbol_kind_type
+      {
+        YYNTOKENS = 153, ///< Number of tokens.
+        S_YYEMPTY = -2,
+        S_YYEOF = 0,                             // END_OF_FILE
+        S_YYerror = 1,                           // error
+        S_YYUNDEF = 2,                           // "invalid token"
+        S_comment = 3,                           // comment
+        S_number = 4,                            // number
+        S_negativenumber = 5,                    // negativenumber
+        S_realnumber = 6,                        // realnumber
+        S_bstring = 7,                           // bstring
+        S_xmlbstring = 8,                        // xmlbstring
+        S_hstring = 9,                           // hstring
+        S_xmlhstring = 10,                       // xmlhstring
+        S_cstring = 11,                          // cstring
+        S_xmlcstring = 12,                       // xmlcstring
+        S_simplestring = 13,                     // simplestring
+        S_xmltstring = 14,                       // xmltstring
+        S_psname = 15,                           // psname
+        S_encodingreference = 16,                // encodingreference
+        S_integerUnicodeLabel = 17,              // integerUnicodeLabel
+        S_18_non_integerUnicodeLabel = 18,       // non-integerUnicodeLabel
+        S_19_extended_true = 19,                 // extended-true
+        S_tstring = 20,                          // tstring
+        S_21_extended_false = 21,                // extended-false
+        S_objectreference = 22,                  // objectreference
+        S_objectsetreference = 23,               // objectsetreference
+        S_typefieldreference = 24,               // typefieldreference
+        S_valuefieldreference = 25,              // valuefieldreference
+        S_valuesetfieldreference = 26,           // valuesetfieldreference
+        S_objectfieldreference = 27,             // objectfieldreference
+        S_objectsetfieldreference = 28,          // objectsetfieldreference
+        S_ABSENT = 29,                           // ABSENT
+        S_ABSTRACT_SYNTAX = 30,                  // ABSTRACT_SYNTAX
+        S_ALL = 31,                              // ALL
+        S_ANY = 32,                              // ANY
+        S_APPLICATION = 33,                      // APPLICATION
+        S_ASN_NULL = 34,                         // ASN_NULL
+        S_AUTOMATIC = 35,                        // AUTOMATIC
+        S_BEGIN = 36,                            // BEGIN
+        S_BIT = 37,                              // BIT
+        S_BMPString = 38,                        // BMPString
+        S_BOOLEAN = 39,                          // BOOLEAN
+        S_BY = 40,                               // BY
+        S_CHARACTER = 41,                        // CHARACTER
+        S_CHOICE = 42,                           // CHOICE
+        S_CLASS = 43,                            // CLASS
+        S_COMPONENT = 44,                        // COMPONENT
+        S_COMPONENTS = 45,                       // COMPONENTS
+        S_CONSTRAINED = 46,                      // CONSTRAINED
+        S_CONTAINING = 47,                       // CONTAINING
+        S_DATE = 48,                             // DATE
+        S_DATE_TIME = 49,                        // DATE_TIME
+        S_DEFAULT = 50,                          // DEFAULT
+        S_DEFINITIONS = 51,                      // DEFINITIONS
+        S_DURATION = 52,                         // DURATION
+        S_EMBEDDED = 53,                         // EMBEDDED
+        S_ENCODED = 54,                          // ENCODED
+        S_ENCODING_CONTROL = 55,                 // ENCODING_CONTROL
+        S_END = 56,                              // END
+        S_ENUMERATED = 57,                       // ENUMERATED
+        S_EXCEPT = 58,                           // EXCEPT
+        S_EXPLICIT = 59,                         // EXPLICIT
+        S_EXPORTS = 60,                          // EXPORTS
+        S_EXTENSIBILITY = 61,                    // EXTENSIBILITY
+        S_EXTERNAL = 62,                         // EXTERNAL
+        S_FALSE = 63,                            // FALSE
+        S_FROM = 64,                             // FROM
+        S_GeneralizedTime = 65,                  // GeneralizedTime
+        S_GeneralString = 66,                    // GeneralString
+        S_GraphicString = 67,                    // GraphicString
+        S_IA5String = 68,                        // IA5String
+        S_IDENTIFIER = 69,                       // IDENTIFIER
+        S_IMPLICIT = 70,                         // IMPLICIT
+        S_IMPLIED = 71,                          // IMPLIED
+        S_IMPORTS = 72,                          // IMPORTS
+        S_INCLUDES = 73,                         // "INCLUDES"
+        S_INSTANCE = 74,                         // INSTANCE
+        S_INSTRUCTIONS = 75,                     // INSTRUCTIONS
+        S_INTEGER = 76,                          // INTEGER
+        S_INTERSECTION = 77,                     // INTERSECTION
+        S_ISO646String = 78,                     // ISO646String
+        S_MAX = 79,                              // MAX
+        S_MIN = 80,                              // MIN
+        S_MINUS_INFINITY = 81,                   // MINUS_INFINITY
+        S_NOT_A_NUMBER = 82,                     // NOT_A_NUMBER
+        S_NumericString = 83,                    // NumericString
+        S_OBJECT = 84,                           // OBJECT
+        S_ObjectDescriptor = 85,                 // ObjectDescriptor
+        S_OCTET = 86,                            // OCTET
+        S_OF = 87,                               // OF
+        S_OID_IRI = 88,                          // OID_IRI
+        S_OPTIONAL = 89,                         // OPTIONAL
+        S_PATTERN = 90,                          // PATTERN
+        S_PDV = 91,                              // PDV
+        S_PLUS_INFINITY = 92,                    // PLUS_INFINITY
+        S_PRESENT = 93,                          // PRESENT
+        S_PrintableString = 94,                  // PrintableString
+        S_PRIVATE = 95,                          // PRIVATE
+        S_REAL = 96,                             // REAL
+        S_RELATIVE_OID = 97,                     // RELATIVE_OID
+        S_RELATIVE_OID_IRI = 98,                 // RELATIVE_OID_IRI
+        S_SEQUENCE = 99,                         // SEQUENCE
+        S_SET = 100,                             // SET
+        S_SETTINGS = 101,                        // SETTINGS
+        S_SIZE = 102,                            // SIZE
+        S_STRING = 103,                          // STRING
+        S_SYNTAX = 104,                          // SYNTAX
+        S_T61String = 105,                       // T61String
+        S_TAGS = 106,                            // TAGS
+        S_TeletexString = 107,                   // TeletexString
+        S_TIME = 108,                            // TIME
+        S_TIME_OF_DAY = 109,                     // TIME_OF_DAY
+        S_TRUE = 110,                            // TRUE
+        S_TYPE_IDENTIFIER = 111,                 // TYPE_IDENTIFIER
+        S_UNION = 112,                           // UNION
+        S_UNIQUE = 113,                          // UNIQUE
+        S_UNIVERSAL = 114,                       // UNIVERSAL
+        S_UniversalString = 115,                 // UniversalString
+        S_UTCTime = 116,                         // UTCTime
+        S_UTF8String = 117,                      // UTF8String
+        S_VideotexString = 118,                  // VideotexString
+        S_VisibleString = 119,                   // VisibleString
+        S_WITH = 120,                            // WITH
+        S_DEFINED_AS = 121,                      // "::="
+        S_ELIPSIS = 122,                         // "..."
+        S_RANGE = 123,                           // ".."
+        S_OPEN_BRACE = 124,                      // "{"
+        S_CLOSE_BRACE = 125,                     // "}"
+        S_OPEN_PARENTHESIS = 126,                // "("
+        S_CLOSE_PARENTHESIS = 127,               // ")"
+        S_OPEN_SQUARE_BRACKET = 128,             // "["
+        S_CLOSE_SQUARE_BRACKET = 129,            // "]"
+        S_LESS_THAN = 130,                       // "<"
+        S_GREATER_THAN = 131,                    // ">"
+        S_EXCLAMATION_MARK = 132,                // "!"
+        S_QUOTATION_MARK = 133,                  // "\""
+        S_AMPERSAND = 134,                       // "&"
+        S_APOSTROPHE = 135,                      // "\'"
+        S_ASTERISK = 136,                        // "*"
+        S_COMMA = 137,                           // ","
+        S_FULL_STOP = 138,                       // "."
+        S_HYPHEN_MINUS = 139,                    // "-"
+        S_SOLIDUS = 140,                         // "/"
+        S_COLON = 141,                           // ":"
+        S_SEMICOLON = 142,                       // ";"
+        S_EQUALS_SIGN = 143,                     // "="
+        S_AT = 144,                              // "@"
+        S_VERTICAL_LINE = 145,                   // "|"
+        S_ACCENT = 146,                          // "^"
+        S_PLUS = 147,                            // PLUS
+        S_STAR = 148,                            // STAR
+        S_GENERIC_IDENTIFIER_UPPERCASE = 149,    // GENERIC_IDENTIFIER_UPPERCASE
+        S_GENERIC_IDENTIFIER_LOWERCASE = 150,    // GENERIC_IDENTIFIER_LOWERCASE
+        S_GENERIC_INTEGER = 151,                 // GENERIC_INTEGER
+        S_xmlasn1typename = 152,                 // xmlasn1typename
+        S_YYACCEPT = 153,                        // $accept
+        S_ModuleDefinitionList = 154,            // ModuleDefinitionList
+        S_ModuleDefinition = 155,                // ModuleDefinition
+        S_SyntaxList = 156,                      // SyntaxList
+        S_DefinedObjectClass = 157,              // DefinedObjectClass
+        S_ExternalObjectClassReference = 158,    // ExternalObjectClassReference
+        S_UsefulObjectClassReference = 159,      // UsefulObjectClassReference
+        S_ObjectClassAssignment = 160,           // ObjectClassAssignment
+        S_ObjectClass = 161,                     // ObjectClass
+        S_ObjectClassDefn = 162,                 // ObjectClassDefn
+        S_FieldSpecList = 163,                   // FieldSpecList
+        S_FieldSpec = 164,                       // FieldSpec
+        S_FieldName = 165,                       // FieldName
+        S_FieldNameList = 166,                   // FieldNameList
+        S_TypeFieldSpec = 167,                   // TypeFieldSpec
+        S_OneOrManyTypeFieldReference = 168,     // OneOrManyTypeFieldReference
+        S_TypeOptionalitySpec = 169,             // TypeOptionalitySpec
+        S_OptionalUnique = 170,                  // OptionalUnique
+        S_FixedTypeValueFieldSpec = 171,         // FixedTypeValueFieldSpec
+        S_ValueOptionalitySpec = 172,            // ValueOptionalitySpec
+        S_VariableTypeValueFieldSpec = 173,      // VariableTypeValueFieldSpec
+        S_FixedTypeValueSetFieldSpec = 174,      // FixedTypeValueSetFieldSpec
+        S_ValueSetDefaultSpec = 175,             // ValueSetDefaultSpec
+        S_ObjectFieldSpec = 176,                 // ObjectFieldSpec
+        S_ObjectOptionalitySpec = 177,           // ObjectOptionalitySpec
+        S_ObjectSetFieldSpec = 178,              // ObjectSetFieldSpec
+        S_ObjectSetOptionalitySpec = 179,        // ObjectSetOptionalitySpec
+        S_WithSyntaxSpec = 180,                  // WithSyntaxSpec
+        S_TokenOrGroupSpecList = 181,            // TokenOrGroupSpecList
+        S_TokenOrGroupSpec = 182,                // TokenOrGroupSpec
+        S_OptionalGroup = 183,                   // OptionalGroup
+        S_RequiredToken = 184,                   // RequiredToken
+        S_LiteralList = 185,                     // LiteralList
+        S_Literal = 186,                         // Literal
+        S_DefinedObject = 187,                   // DefinedObject
+        S_ExternalObjectReference = 188,         // ExternalObjectReference
+        S_Object = 189,                          // Object
+        S_ObjectDefn = 190,                      // ObjectDefn
+        S_DefaultSyntax = 191,                   // DefaultSyntax
+        S_FieldSetting = 192,                    // FieldSetting
+        S_DefinedSyntax = 193,                   // DefinedSyntax
+        S_DefinedSyntaxList = 194,               // DefinedSyntaxList
+        S_DefinedSyntaxToken = 195,              // DefinedSyntaxToken
+        S_Setting = 196,                         // Setting
+        S_DefinedObjectSet = 197,                // DefinedObjectSet
+        S_ExternalObjectSetReference = 198,      // ExternalObjectSetReference
+        S_ObjectSetAssignment = 199,             // ObjectSetAssignment
+        S_ObjectSet = 200,                       // ObjectSet
+        S_ObjectSetSpec = 201,                   // ObjectSetSpec
+        S_ObjectClassFieldType = 202,            // ObjectClassFieldType
+        S_ParameterizedAssignment = 203,         // ParameterizedAssignment
+        S_ParameterizedTypeAssignment = 204,     // ParameterizedTypeAssignment
+        S_ParameterizedValueAssignment = 205,    // ParameterizedValueAssignment
+        S_ParameterizedValueSetTypeAssignment = 206, // ParameterizedValueSetTypeAssignment
+        S_ParameterizedObjectClassAssignment = 207, // ParameterizedObjectClassAssignment
+        S_ParameterList = 208,                   // ParameterList
+        S_ParameterSeries = 209,                 // ParameterSeries
+        S_Parameter = 210,                       // Parameter
+        S_ParamGovernor = 211,                   // ParamGovernor
+        S_Governor = 212,                        // Governor
+        S_ReferencedObjects = 213,               // ReferencedObjects
+        S_TypeFromObject = 214,                  // TypeFromObject
+        S_InstanceOfType = 215,                  // InstanceOfType
+        S_SimpleDefinedType = 216,               // SimpleDefinedType
+        S_SimpleDefinedValue = 217,              // SimpleDefinedValue
+        S_GeneralConstraint = 218,               // GeneralConstraint
+        S_UserDefinedConstraint = 219,           // UserDefinedConstraint
+        S_UserDefinedConstraintParameter = 220,  // UserDefinedConstraintParameter
+        S_TableConstraint = 221,                 // TableConstraint
+        S_AtNotationList = 222,                  // AtNotationList
+        S_AtNotation = 223,                      // AtNotation
+        S_Level = 224,                           // Level
+        S_ComponentIdList = 225,                 // ComponentIdList
+        S_ContentsConstraint = 226,              // ContentsConstraint
+        S_EncodingControlSections = 227,         // EncodingControlSections
+        S_ModuleIdentifier = 228,                // ModuleIdentifier
+        S_DefinitiveIdentification = 229,        // DefinitiveIdentification
+        S_DefinitiveOID = 230,                   // DefinitiveOID
+        S_DefinitiveOIDandIRI = 231,             // DefinitiveOIDandIRI
+        S_DefinitiveObjIdComponentList = 232,    // DefinitiveObjIdComponentList
+        S_DefinitiveObjIdComponent = 233,        // DefinitiveObjIdComponent
+        S_DefinitiveNumberForm = 234,            // DefinitiveNumberForm
+        S_DefinitiveNameAndNumberForm = 235,     // DefinitiveNameAndNumberForm
+        S_EncodingReferenceDefault = 236,        // EncodingReferenceDefault
+        S_TagDefault = 237,                      // TagDefault
+        S_ExtensionDefault = 238,                // ExtensionDefault
+        S_ModuleBody = 239,                      // ModuleBody
+        S_Exports = 240,                         // Exports
+        S_SymbolsExported = 241,                 // SymbolsExported
+        S_Imports = 242,                         // Imports
+        S_SymbolsImported = 243,                 // SymbolsImported
+        S_SymbolsFromModuleList = 244,           // SymbolsFromModuleList
+        S_SymbolsFromModule = 245,               // SymbolsFromModule
+        S_GlobalModuleReference = 246,           // GlobalModuleReference
+        S_SymbolList = 247,                      // SymbolList
+        S_Symbol = 248,                          // Symbol
+        S_Reference = 249,                       // Reference
+        S_AssignmentList = 250,                  // AssignmentList
+        S_Assignment = 251,                      // Assignment
+        S_DefinedType = 252,                     // DefinedType
+        S_DefinedValue = 253,                    // DefinedValue
+        S_ParameterizedType = 254,               // ParameterizedType
+        S_ParameterizedValue = 255,              // ParameterizedValue
+        S_ActualParameterList = 256,             // ActualParameterList
+        S_ActualParameter = 257,                 // ActualParameter
+        S_ExternalTypeReference = 258,           // ExternalTypeReference
+        S_ExternalValueReference = 259,          // ExternalValueReference
+        S_TypeAssignment = 260,                  // TypeAssignment
+        S_ValueAssignment = 261,                 // ValueAssignment
+        S_ValueSetTypeAssignment = 262,          // ValueSetTypeAssignment
+        S_Type = 263,                            // Type
+        S_BuiltinType = 264,                     // BuiltinType
+        S_NamedType = 265,                       // NamedType
+        S_ValueWithoutTypeIdentifier = 266,      // ValueWithoutTypeIdentifier
+        S_Value = 267,                           // Value
+        S_ValueCommaListChoice = 268,            // ValueCommaListChoice
+        S_ValueChoice = 269,                     // ValueChoice
+        S_ValueSet = 270,                        // ValueSet
+        S_SequenceOfValues = 271,                // SequenceOfValues
+        S_BooleanType = 272,                     // BooleanType
+        S_BooleanValue = 273,                    // BooleanValue
+        S_IntegerType = 274,                     // IntegerType
+        S_NamedNumberList = 275,                 // NamedNumberList
+        S_NamedNumber = 276,                     // NamedNumber
+        S_SignedNumber = 277,                    // SignedNumber
+        S_EnumeratedType = 278,                  // EnumeratedType
+        S_Enumerations = 279,                    // Enumerations
+        S_Enumeration = 280,                     // Enumeration
+        S_EnumerationItem = 281,                 // EnumerationItem
+        S_RealType = 282,                        // RealType
+        S_BitStringType = 283,                   // BitStringType
+        S_NamedBitList = 284,                    // NamedBitList
+        S_NamedBit = 285,                        // NamedBit
+        S_OctetStringType = 286,                 // OctetStringType
+        S_NullType = 287,                        // NullType
+        S_SequenceType = 288,                    // SequenceType
+        S_ComponentTypeLists = 289,              // ComponentTypeLists
+        S_ComponentTypeList = 290,               // ComponentTypeList
+        S_ComponentType = 291,                   // ComponentType
+        S_SequenceOfType = 292,                  // SequenceOfType
+        S_SetType = 293,                         // SetType
+        S_SetOfType = 294,                       // SetOfType
+        S_ChoiceType = 295,                      // ChoiceType
+        S_AlternativeTypeLists = 296,            // AlternativeTypeLists
+        S_RootAlternativeTypeList = 297,         // RootAlternativeTypeList
+        S_AlternativeTypeList = 298,             // AlternativeTypeList
+        S_SelectionType = 299,                   // SelectionType
+        S_PrefixedType = 300,                    // PrefixedType
+        S_TaggedType = 301,                      // TaggedType
+        S_Tag = 302,                             // Tag
+        S_EncodingReference = 303,               // EncodingReference
+        S_ClassNumber = 304,                     // ClassNumber
+        S_Class = 305,                           // Class
+        S_ObjectIdentifierType = 306,            // ObjectIdentifierType
+        S_ObjectIdentifierValue = 307,           // ObjectIdentifierValue
+        S_ObjIdComponentsList = 308,             // ObjIdComponentsList
+        S_ObjIdComponents = 309,                 // ObjIdComponents
+        S_NameForm = 310,                        // NameForm
+        S_NumberForm = 311,                      // NumberForm
+        S_NameAndNumberForm = 312,               // NameAndNumberForm
+        S_RelativeOIDType = 313,                 // RelativeOIDType
+        S_IRIType = 314,                         // IRIType
+        S_IRIValue = 315,                        // IRIValue
+        S_FirstArcIdentifier = 316,              // FirstArcIdentifier
+        S_SubsequentArcIdentifier = 317,         // SubsequentArcIdentifier
+        S_ArcIdentifier = 318,                   // ArcIdentifier
+        S_RelativeIRIType = 319,                 // RelativeIRIType
+        S_EmbeddedPDVType = 320,                 // EmbeddedPDVType
+        S_ExternalType = 321,                    // ExternalType
+        S_TimeType = 322,                        // TimeType
+        S_TimeValue = 323,                       // TimeValue
+        S_DateType = 324,                        // DateType
+        S_TimeOfDayType = 325,                   // TimeOfDayType
+        S_DateTimeType = 326,                    // DateTimeType
+        S_DurationType = 327,                    // DurationType
+        S_CharacterStringType = 328,             // CharacterStringType
+        S_RestrictedCharacterStringType = 329,   // RestrictedCharacterStringType
+        S_UnrestrictedCharacterStringType = 330, // UnrestrictedCharacterStringType
+        S_ConstrainedType = 331,                 // ConstrainedType
+        S_TypeWithConstraint = 332,              // TypeWithConstraint
+        S_Constraint = 333,                      // Constraint
+        S_ConstraintSpec = 334,                  // ConstraintSpec
+        S_SubtypeConstraint = 335,               // SubtypeConstraint
+        S_ElementSetSpecs = 336,                 // ElementSetSpecs
+        S_ElementSetSpec = 337,                  // ElementSetSpec
+        S_Unions = 338,                          // Unions
+        S_UElems = 339,                          // UElems
+        S_Intersections = 340,                   // Intersections
+        S_IElems = 341,                          // IElems
+        S_IntersectionElements = 342,            // IntersectionElements
+        S_Elems = 343,                           // Elems
+        S_Exclusions = 344,                      // Exclusions
+        S_UnionMark = 345,                       // UnionMark
+        S_IntersectionMark = 346,                // IntersectionMark
+        S_Elements = 347,                        // Elements
+        S_SubtypeElements = 348,                 // SubtypeElements
+        S_SingleValue = 349,                     // SingleValue
+        S_ContainedSubtype = 350,                // ContainedSubtype
+        S_Includes = 351,                        // Includes
+        S_ValueRange = 352,                      // ValueRange
+        S_LowerEndpoint = 353,                   // LowerEndpoint
+        S_UpperEndpoint = 354,                   // UpperEndpoint
+        S_LowerEndValue = 355,                   // LowerEndValue
+        S_UpperEndValue = 356,                   // UpperEndValue
+        S_SizeConstraint = 357,                  // SizeConstraint
+        S_TypeConstraint = 358,                  // TypeConstraint
+        S_PermittedAlphabet = 359,               // PermittedAlphabet
+        S_InnerTypeConstraints = 360,            // InnerTypeConstraints
+        S_SingleTypeConstraint = 361,            // SingleTypeConstraint
+        S_MultipleTypeConstraints = 362,         // MultipleTypeConstraints
+        S_TypeConstraints = 363,                 // TypeConstraints
+        S_NamedConstraint = 364,                 // NamedConstraint
+        S_ComponentConstraint = 365,             // ComponentConstraint
+        S_ValueConstraint = 366,                 // ValueConstraint
+        S_PresenceConstraint = 367,              // PresenceConstraint
+        S_PatternConstraint = 368,               // PatternConstraint
+        S_PropertySettings = 369,                // PropertySettings
+        S_ExceptionSpec = 370,                   // ExceptionSpec
+        S_ExceptionIdentification = 371,         // ExceptionIdentification
+        S_typereference = 372,                   // typereference
+        S_identifier = 373,                      // identifier
+        S_valuereference = 374,                  // valuereference
+        S_modulereference = 375,                 // modulereference
+        S_objectclassreference = 376,            // objectclassreference
+        S_word = 377                             // word
+      };
+    };
+
+    /// (Internal) symbol kind.
+    typedef symbol_kind::symbol_kind_type symbol_kind_type;
 
-    /// Internal symbol number for tokens (subsumed by symbol_number_type).
-    typedef unsigned char token_number_type;
+    /// The number of tokens.
+    static const symbol_kind_type YYNTOKENS = symbol_kind::YYNTOKENS;
 
     /// A complete symbol.
     ///
-    /// Expects its Base type to provide access to the symbol type
-    /// via type_get ().
+    /// Expects its Base type to provide access to the symbol kind
+    /// via kind ().
     ///
     /// Provide access to semantic value and location.
     template <typename Base>
@@ -1104,20 +1519,356 @@ namespace yy {
       typedef Base super_type;
 
       /// Default constructor.
-      basic_symbol ()
+      basic_symbol () YY_NOEXCEPT
         : value ()
         , location ()
       {}
 
 #if 201103L <= YY_CPLUSPLUS
       /// Move constructor.
-      basic_symbol (basic_symbol&& that);
+      basic_symbol (basic_symbol&& that)
+        : Base (std::move (that))
+        , value ()
+        , location (std::move (that.location))
+      {
+        switch (this->kind ())
+    {
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
+        value.move< Assignment > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BitStringType: // BitStringType
+        value.move< BitStringType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BooleanType: // BooleanType
+        value.move< BooleanType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BooleanValue: // BooleanValue
+        value.move< BooleanValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BuiltinType: // BuiltinType
+        value.move< BuiltinType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
+        value.move< CharacterStringType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ChoiceType: // ChoiceType
+        value.move< ChoiceType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Class: // Class
+        value.move< Class > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
+        value.move< Collection > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ComponentType: // ComponentType
+        value.move< ComponentType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
+        value.move< ComponentTypeList > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DateTimeType: // DateTimeType
+        value.move< DateTimeType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DateType: // DateType
+        value.move< DateType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
+        value.move< DefinedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DefinedValue: // DefinedValue
+        value.move< DefinedValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DurationType: // DurationType
+        value.move< DurationType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
+        value.move< EmbeddedPDVType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
+        value.move< EnumeratedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
+        value.move< EnumerationValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ExternalType: // ExternalType
+        value.move< ExternalType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_IRIType: // IRIType
+        value.move< IRIType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
+        value.move< Import > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
+        value.move< InstanceOfType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_IntegerType: // IntegerType
+        value.move< IntegerType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ModuleBody: // ModuleBody
+        value.move< Module > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NamedNumber: // NamedNumber
+        value.move< NamedNumber > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NamedType: // NamedType
+        value.move< NamedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NullType: // NullType
+        value.move< NullType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
+        value.move< ObjectClassAssignment > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
+        value.move< ObjectClassFieldType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
+        value.move< ObjectIdComponentValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
+        value.move< ObjectIdentifierType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_OctetStringType: // OctetStringType
+        value.move< OctetStringType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Parameter: // Parameter
+        value.move< Parameter > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_PrefixedType: // PrefixedType
+        value.move< PrefixedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_RealType: // RealType
+        value.move< RealType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
+        value.move< RelativeIRIType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
+        value.move< RelativeOIDType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
+        value.move< SequenceOfType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SequenceType: // SequenceType
+        value.move< SequenceType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SetOfType: // SetOfType
+        value.move< SetOfType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SetType: // SetType
+        value.move< SetType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Tag: // Tag
+        value.move< Tag > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TaggedType: // TaggedType
+        value.move< TaggedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TagDefault: // TagDefault
+        value.move< TaggingMode > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
+        value.move< TimeOfDayType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TimeType: // TimeType
+        value.move< TimeType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TimeValue: // TimeValue
+        value.move< TimeValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
+        value.move< Type > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
+        value.move< Value > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_realnumber: // realnumber
+        value.move< double > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ClassNumber: // ClassNumber
+        value.move< int > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
+        value.move< int64_t > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
+        value.move< std::string > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_AssignmentList: // AssignmentList
+        value.move< std::vector<Assignment> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
+        value.move< std::vector<ClassField> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Exports: // Exports
+        value.move< std::vector<Export> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
+        value.move< std::vector<Import> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
+        value.move< std::vector<NamedNumber> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
+        value.move< std::vector<NamedType> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
+        value.move< std::vector<ObjectIdComponentValue> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
+        value.move< std::vector<Parameter> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
+        value.move< std::vector<Type> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
+        value.move< std::vector<Value> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
+        value.move< std::vector<std::string> > (std::move (that.value));
+        break;
+
+      default:
+        break;
+    }
+
+      }
 #endif
 
       /// Copy constructor.
       basic_symbol (const basic_symbol& that);
 
-      /// Constructor for valueless symbols, and symbols from each type.
+      /// Constructors for typed symbols.
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, location_type&& l)
         : Base (t)
@@ -1129,6 +1880,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Assignment&& v, location_type&& l)
         : Base (t)
@@ -1142,6 +1894,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BitStringType&& v, location_type&& l)
         : Base (t)
@@ -1155,6 +1908,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BooleanType&& v, location_type&& l)
         : Base (t)
@@ -1168,6 +1922,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BooleanValue&& v, location_type&& l)
         : Base (t)
@@ -1181,6 +1936,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BuiltinType&& v, location_type&& l)
         : Base (t)
@@ -1194,6 +1950,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, CharacterStringType&& v, location_type&& l)
         : Base (t)
@@ -1207,6 +1964,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ChoiceType&& v, location_type&& l)
         : Base (t)
@@ -1220,6 +1978,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Class&& v, location_type&& l)
         : Base (t)
@@ -1233,6 +1992,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Collection&& v, location_type&& l)
         : Base (t)
@@ -1246,6 +2006,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ComponentType&& v, location_type&& l)
         : Base (t)
@@ -1259,6 +2020,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ComponentTypeList&& v, location_type&& l)
         : Base (t)
@@ -1272,6 +2034,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DateTimeType&& v, location_type&& l)
         : Base (t)
@@ -1285,6 +2048,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DateType&& v, location_type&& l)
         : Base (t)
@@ -1298,6 +2062,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DefinedType&& v, location_type&& l)
         : Base (t)
@@ -1311,6 +2076,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DefinedValue&& v, location_type&& l)
         : Base (t)
@@ -1324,6 +2090,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DurationType&& v, location_type&& l)
         : Base (t)
@@ -1337,6 +2104,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, EmbeddedPDVType&& v, location_type&& l)
         : Base (t)
@@ -1350,6 +2118,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, EnumeratedType&& v, location_type&& l)
         : Base (t)
@@ -1363,6 +2132,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, EnumerationValue&& v, location_type&& l)
         : Base (t)
@@ -1376,6 +2146,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ExternalType&& v, location_type&& l)
         : Base (t)
@@ -1389,6 +2160,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, IRIType&& v, location_type&& l)
         : Base (t)
@@ -1402,6 +2174,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Import&& v, location_type&& l)
         : Base (t)
@@ -1415,6 +2188,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, InstanceOfType&& v, location_type&& l)
         : Base (t)
@@ -1428,6 +2202,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, IntegerType&& v, location_type&& l)
         : Base (t)
@@ -1441,6 +2216,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Module&& v, location_type&& l)
         : Base (t)
@@ -1454,6 +2230,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, NamedNumber&& v, location_type&& l)
         : Base (t)
@@ -1467,6 +2244,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, NamedType&& v, location_type&& l)
         : Base (t)
@@ -1480,6 +2258,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, NullType&& v, location_type&& l)
         : Base (t)
@@ -1493,6 +2272,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectClassAssignment&& v, location_type&& l)
         : Base (t)
@@ -1506,6 +2286,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectClassFieldType&& v, location_type&& l)
         : Base (t)
@@ -1519,6 +2300,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectIdComponentValue&& v, location_type&& l)
         : Base (t)
@@ -1532,6 +2314,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectIdentifierType&& v, location_type&& l)
         : Base (t)
@@ -1545,6 +2328,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, OctetStringType&& v, location_type&& l)
         : Base (t)
@@ -1558,6 +2342,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Parameter&& v, location_type&& l)
         : Base (t)
@@ -1571,6 +2356,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, PrefixedType&& v, location_type&& l)
         : Base (t)
@@ -1584,6 +2370,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, RealType&& v, location_type&& l)
         : Base (t)
@@ -1597,6 +2384,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, RelativeIRIType&& v, location_type&& l)
         : Base (t)
@@ -1610,6 +2398,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, RelativeOIDType&& v, location_type&& l)
         : Base (t)
@@ -1623,6 +2412,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SequenceOfType&& v, location_type&& l)
         : Base (t)
@@ -1636,6 +2426,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SequenceType&& v, location_type&& l)
         : Base (t)
@@ -1649,6 +2440,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SetOfType&& v, location_type&& l)
         : Base (t)
@@ -1662,6 +2454,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SetType&& v, location_type&& l)
         : Base (t)
@@ -1675,6 +2468,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Tag&& v, location_type&& l)
         : Base (t)
@@ -1688,6 +2482,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TaggedType&& v, location_type&& l)
         : Base (t)
@@ -1701,6 +2496,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TaggingMode&& v, location_type&& l)
         : Base (t)
@@ -1714,6 +2510,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TimeOfDayType&& v, location_type&& l)
         : Base (t)
@@ -1727,6 +2524,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TimeType&& v, location_type&& l)
         : Base (t)
@@ -1740,6 +2538,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TimeValue&& v, location_type&& l)
         : Base (t)
@@ -1753,6 +2552,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Type&& v, location_type&& l)
         : Base (t)
@@ -1766,6 +2566,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Value&& v, location_type&& l)
         : Base (t)
@@ -1779,6 +2580,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, double&& v, location_type&& l)
         : Base (t)
@@ -1792,6 +2594,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, int&& v, location_type&& l)
         : Base (t)
@@ -1805,6 +2608,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, int64_t&& v, location_type&& l)
         : Base (t)
@@ -1818,6 +2622,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::string&& v, location_type&& l)
         : Base (t)
@@ -1831,6 +2636,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Assignment>&& v, location_type&& l)
         : Base (t)
@@ -1844,6 +2650,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<ClassField>&& v, location_type&& l)
         : Base (t)
@@ -1857,6 +2664,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Export>&& v, location_type&& l)
         : Base (t)
@@ -1870,6 +2678,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Import>&& v, location_type&& l)
         : Base (t)
@@ -1883,6 +2692,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<NamedNumber>&& v, location_type&& l)
         : Base (t)
@@ -1896,6 +2706,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<NamedType>&& v, location_type&& l)
         : Base (t)
@@ -1909,6 +2720,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<ObjectIdComponentValue>&& v, location_type&& l)
         : Base (t)
@@ -1922,6 +2734,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Parameter>&& v, location_type&& l)
         : Base (t)
@@ -1935,6 +2748,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Type>&& v, location_type&& l)
         : Base (t)
@@ -1948,6 +2762,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Value>&& v, location_type&& l)
         : Base (t)
@@ -1961,6 +2776,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<std::string>&& v, location_type&& l)
         : Base (t)
@@ -1981,344 +2797,346 @@ namespace yy {
         clear ();
       }
 
+
+
       /// Destroy contents, and record that is empty.
-      void clear ()
+      void clear () YY_NOEXCEPT
       {
         // User destructor.
-        symbol_number_type yytype = this->type_get ();
+        symbol_kind_type yykind = this->kind ();
         basic_symbol<Base>& yysym = *this;
         (void) yysym;
-        switch (yytype)
+        switch (yykind)
         {
        default:
           break;
         }
 
-        // Type destructor.
-switch (yytype)
+        // Value type destructor.
+switch (yykind)
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.template destroy< Assignment > ();
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.template destroy< BitStringType > ();
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.template destroy< BooleanType > ();
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.template destroy< BooleanValue > ();
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.template destroy< BuiltinType > ();
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.template destroy< CharacterStringType > ();
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.template destroy< ChoiceType > ();
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.template destroy< Class > ();
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.template destroy< Collection > ();
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.template destroy< ComponentType > ();
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.template destroy< ComponentTypeList > ();
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.template destroy< DateTimeType > ();
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.template destroy< DateType > ();
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.template destroy< DefinedType > ();
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.template destroy< DefinedValue > ();
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.template destroy< DurationType > ();
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.template destroy< EmbeddedPDVType > ();
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.template destroy< EnumeratedType > ();
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.template destroy< EnumerationValue > ();
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.template destroy< ExternalType > ();
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.template destroy< IRIType > ();
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.template destroy< Import > ();
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.template destroy< InstanceOfType > ();
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.template destroy< IntegerType > ();
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.template destroy< Module > ();
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.template destroy< NamedNumber > ();
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.template destroy< NamedType > ();
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.template destroy< NullType > ();
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.template destroy< ObjectClassAssignment > ();
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.template destroy< ObjectClassFieldType > ();
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.template destroy< ObjectIdComponentValue > ();
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.template destroy< ObjectIdentifierType > ();
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.template destroy< OctetStringType > ();
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.template destroy< Parameter > ();
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.template destroy< PrefixedType > ();
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.template destroy< RealType > ();
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.template destroy< RelativeIRIType > ();
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.template destroy< RelativeOIDType > ();
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.template destroy< SequenceOfType > ();
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.template destroy< SequenceType > ();
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.template destroy< SetOfType > ();
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.template destroy< SetType > ();
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.template destroy< Tag > ();
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.template destroy< TaggedType > ();
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.template destroy< TaggingMode > ();
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.template destroy< TimeOfDayType > ();
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.template destroy< TimeType > ();
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.template destroy< TimeValue > ();
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.template destroy< Type > ();
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.template destroy< Value > ();
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.template destroy< double > ();
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.template destroy< int > ();
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.template destroy< int64_t > ();
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.template destroy< std::string > ();
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.template destroy< std::vector<Assignment> > ();
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.template destroy< std::vector<ClassField> > ();
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.template destroy< std::vector<Export> > ();
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.template destroy< std::vector<Import> > ();
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.template destroy< std::vector<NamedNumber> > ();
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.template destroy< std::vector<NamedType> > ();
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.template destroy< std::vector<ObjectIdComponentValue> > ();
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.template destroy< std::vector<Parameter> > ();
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.template destroy< std::vector<Type> > ();
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.template destroy< std::vector<Value> > ();
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.template destroy< std::vector<std::string> > ();
         break;
 
@@ -2329,6 +3147,15 @@ switch (yytype)
         Base::clear ();
       }
 
+      /// The user-facing name of this symbol.
+      std::string name () const YY_NOEXCEPT
+      {
+        return asn1_parser::symbol_name (this->kind ());
+      }
+
+      /// Backward compatibility (Bison 3.6).
+      symbol_kind_type type_get () const YY_NOEXCEPT;
+
       /// Whether empty.
       bool empty () const YY_NOEXCEPT;
 
@@ -2336,7 +3163,7 @@ switch (yytype)
       void move (basic_symbol& s);
 
       /// The semantic value.
-      semantic_type value;
+      value_type value;
 
       /// The location.
       location_type location;
@@ -2349,112 +3176,127 @@ switch (yytype)
     };
 
     /// Type access provider for token (enum) based symbols.
-    struct by_type
+    struct by_kind
     {
+      /// The symbol kind as needed by the constructor.
+      typedef token_kind_type kind_type;
+
       /// Default constructor.
-      by_type ();
+      by_kind () YY_NOEXCEPT;
 
 #if 201103L <= YY_CPLUSPLUS
       /// Move constructor.
-      by_type (by_type&& that);
+      by_kind (by_kind&& that) YY_NOEXCEPT;
 #endif
 
       /// Copy constructor.
-      by_type (const by_type& that);
-
-      /// The symbol type as needed by the constructor.
-      typedef token_type kind_type;
+      by_kind (const by_kind& that) YY_NOEXCEPT;
 
       /// Constructor from (external) token numbers.
-      by_type (kind_type t);
+      by_kind (kind_type t) YY_NOEXCEPT;
+
+
 
       /// Record that this symbol is empty.
-      void clear ();
+      void clear () YY_NOEXCEPT;
 
-      /// Steal the symbol type from \a that.
-      void move (by_type& that);
+      /// Steal the symbol kind from \a that.
+      void move (by_kind& that);
 
       /// The (internal) type number (corresponding to \a type).
       /// \a empty when empty.
-      symbol_number_type type_get () const YY_NOEXCEPT;
+      symbol_kind_type kind () const YY_NOEXCEPT;
 
-      /// The token.
-      token_type token () const YY_NOEXCEPT;
+      /// Backward compatibility (Bison 3.6).
+      symbol_kind_type type_get () const YY_NOEXCEPT;
 
-      /// The symbol type.
-      /// \a empty_symbol when empty.
-      /// An int, not token_number_type, to be able to store empty_symbol.
-      int type;
+      /// The symbol kind.
+      /// \a S_YYEMPTY when empty.
+      symbol_kind_type kind_;
     };
 
+    /// Backward compatibility for a private implementation detail (Bison 3.6).
+    typedef by_kind by_type;
+
     /// "External" symbols: returned by the scanner.
-    struct symbol_type : basic_symbol<by_type>
+    struct symbol_type : basic_symbol<by_kind>
     {
       /// Superclass.
-      typedef basic_symbol<by_type> super_type;
+      typedef basic_symbol<by_kind> super_type;
 
       /// Empty symbol.
-      symbol_type () {}
+      symbol_type () YY_NOEXCEPT {}
 
       /// Constructor for valueless symbols, and symbols from each type.
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, location_type l)
-        : super_type(token_type (tok), std::move (l))
-      {
-        YYASSERT (tok == token::END_OF_FILE || tok == token::comment || tok == token::psname || tok == token::encodingreference || tok == token::integerUnicodeLabel || tok == 273 || tok == 274 || tok == token::tstring || tok == 276 || tok == token::objectsetreference || tok == token::valuesetfieldreference || tok == token::objectfieldreference || tok == token::objectsetfieldreference || tok == token::ABSENT || tok == token::ABSTRACT_SYNTAX || tok == token::ALL || tok == token::ANY || tok == token::APPLICATION || tok == token::ASN_NULL || tok == token::AUTOMATIC || tok == token::BEGIN || tok == token::BIT || tok == token::BMPString || tok == token::BOOLEAN || tok == token::BY || tok == token::CHARACTER || tok == token::CHOICE || tok == token::CLASS || tok == token::COMPONENT || tok == token::COMPONENTS || tok == token::CONSTRAINED || tok == token::CONTAINING || tok == token::DATE || tok == token::DATE_TIME || tok == token::DEFAULT || tok == token::DEFINITIONS || tok == token::DURATION || tok == token::EMBEDDED || tok == token::ENCODED || tok == token::ENCODING_CONTROL || tok == token::END || tok == token::ENUMERATED || tok == token::EXCEPT || tok == token::EXPLICIT || tok == token::EXPORTS || tok == token::EXTENSIBILITY || tok == token::EXTERNAL || tok == token::FALSE || tok == token::FROM || tok == token::GeneralizedTime || tok == token::GeneralString || tok == token::GraphicString || tok == token::IA5String || tok == token::IDENTIFIER || tok == token::IMPLICIT || tok == token::IMPLIED || tok == token::IMPORTS || tok == token::INCLUDES || tok == token::INSTANCE || tok == token::INSTRUCTIONS || tok == token::INTEGER || tok == token::INTERSECTION || tok == token::ISO646String || tok == token::MAX || tok == token::MIN || tok == token::MINUS_INFINITY || tok == token::NOT_A_NUMBER || tok == token::NumericString || tok == token::OBJECT || tok == token::ObjectDescriptor || tok == token::OCTET || tok == token::OF || tok == token::OID_IRI || tok == token::OPTIONAL || tok == token::PATTERN || tok == token::PDV || tok == token::PLUS_INFINITY || tok == token::PRESENT || tok == token::PrintableString || tok == token::PRIVATE || tok == token::REAL || tok == token::RELATIVE_OID || tok == token::RELATIVE_OID_IRI || tok == token::SEQUENCE || tok == token::SET || tok == token::SETTINGS || tok == token::SIZE || tok == token::STRING || tok == token::SYNTAX || tok == token::T61String || tok == token::TAGS || tok == token::TeletexString || tok == token::TIME || tok == token::TIME_OF_DAY || tok == token::TRUE || tok == token::TYPE_IDENTIFIER || tok == token::UNION || tok == token::UNIQUE || tok == token::UNIVERSAL || tok == token::UniversalString || tok == token::UTCTime || tok == token::UTF8String || tok == token::VideotexString || tok == token::VisibleString || tok == token::WITH || tok == token::DEFINED_AS || tok == token::ELIPSIS || tok == token::RANGE || tok == token::OPEN_BRACE || tok == token::CLOSE_BRACE || tok == token::OPEN_PARENTHESIS || tok == token::CLOSE_PARENTHESIS || tok == token::OPEN_SQUARE_BRACKET || tok == token::CLOSE_SQUARE_BRACKET || tok == token::LESS_THAN || tok == token::GREATER_THAN || tok == token::EXCLAMATION_MARK || tok == token::QUOTATION_MARK || tok == token::AMPERSAND || tok == token::APOSTROPHE || tok == token::ASTERISK || tok == token::COMMA || tok == token::FULL_STOP || tok == token::HYPHEN_MINUS || tok == token::SOLIDUS || tok == token::COLON || tok == token::SEMICOLON || tok == token::EQUALS_SIGN || tok == token::AT || tok == token::VERTICAL_LINE || tok == token::ACCENT || tok == token::PLUS || tok == token::STAR || tok == token::GENERIC_INTEGER || tok == token::xmlasn1typename);
-      }
+        : super_type (token_kind_type (tok), std::move (l))
 #else
       symbol_type (int tok, const location_type& l)
-        : super_type(token_type (tok), l)
+        : super_type (token_kind_type (tok), l)
+#endif
       {
-        YYASSERT (tok == token::END_OF_FILE || tok == token::comment || tok == token::psname || tok == token::encodingreference || tok == token::integerUnicodeLabel || tok == 273 || tok == 274 || tok == token::tstring || tok == 276 || tok == token::objectsetreference || tok == token::valuesetfieldreference || tok == token::objectfieldreference || tok == token::objectsetfieldreference || tok == token::ABSENT || tok == token::ABSTRACT_SYNTAX || tok == token::ALL || tok == token::ANY || tok == token::APPLICATION || tok == token::ASN_NULL || tok == token::AUTOMATIC || tok == token::BEGIN || tok == token::BIT || tok == token::BMPString || tok == token::BOOLEAN || tok == token::BY || tok == token::CHARACTER || tok == token::CHOICE || tok == token::CLASS || tok == token::COMPONENT || tok == token::COMPONENTS || tok == token::CONSTRAINED || tok == token::CONTAINING || tok == token::DATE || tok == token::DATE_TIME || tok == token::DEFAULT || tok == token::DEFINITIONS || tok == token::DURATION || tok == token::EMBEDDED || tok == token::ENCODED || tok == token::ENCODING_CONTROL || tok == token::END || tok == token::ENUMERATED || tok == token::EXCEPT || tok == token::EXPLICIT || tok == token::EXPORTS || tok == token::EXTENSIBILITY || tok == token::EXTERNAL || tok == token::FALSE || tok == token::FROM || tok == token::GeneralizedTime || tok == token::GeneralString || tok == token::GraphicString || tok == token::IA5String || tok == token::IDENTIFIER || tok == token::IMPLICIT || tok == token::IMPLIED || tok == token::IMPORTS || tok == token::INCLUDES || tok == token::INSTANCE || tok == token::INSTRUCTIONS || tok == token::INTEGER || tok == token::INTERSECTION || tok == token::ISO646String || tok == token::MAX || tok == token::MIN || tok == token::MINUS_INFINITY || tok == token::NOT_A_NUMBER || tok == token::NumericString || tok == token::OBJECT || tok == token::ObjectDescriptor || tok == token::OCTET || tok == token::OF || tok == token::OID_IRI || tok == token::OPTIONAL || tok == token::PATTERN || tok == token::PDV || tok == token::PLUS_INFINITY || tok == token::PRESENT || tok == token::PrintableString || tok == token::PRIVATE || tok == token::REAL || tok == token::RELATIVE_OID || tok == token::RELATIVE_OID_IRI || tok == token::SEQUENCE || tok == token::SET || tok == token::SETTINGS || tok == token::SIZE || tok == token::STRING || tok == token::SYNTAX || tok == token::T61String || tok == token::TAGS || tok == token::TeletexString || tok == token::TIME || tok == token::TIME_OF_DAY || tok == token::TRUE || tok == token::TYPE_IDENTIFIER || tok == token::UNION || tok == token::UNIQUE || tok == token::UNIVERSAL || tok == token::UniversalString || tok == token::UTCTime || tok == token::UTF8String || tok == token::VideotexString || tok == token::VisibleString || tok == token::WITH || tok == token::DEFINED_AS || tok == token::ELIPSIS || tok == token::RANGE || tok == token::OPEN_BRACE || tok == token::CLOSE_BRACE || tok == token::OPEN_PARENTHESIS || tok == token::CLOSE_PARENTHESIS || tok == token::OPEN_SQUARE_BRACKET || tok == token::CLOSE_SQUARE_BRACKET || tok == token::LESS_THAN || tok == token::GREATER_THAN || tok == token::EXCLAMATION_MARK || tok == token::QUOTATION_MARK || tok == token::AMPERSAND || tok == token::APOSTROPHE || tok == token::ASTERISK || tok == token::COMMA || tok == token::FULL_STOP || tok == token::HYPHEN_MINUS || tok == token::SOLIDUS || tok == token::COLON || tok == token::SEMICOLON || tok == token::EQUALS_SIGN || tok == token::AT || tok == token::VERTICAL_LINE || tok == token::ACCENT || tok == token::PLUS || tok == token::STAR || tok == token::GENERIC_INTEGER || tok == token::xmlasn1typename);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT (tok == token::END_OF_FILE
+                   || (token::YYerror <= tok && tok <= token::comment)
+                   || (token::psname <= tok && tok <= 276)
+                   || tok == token::objectsetreference
+                   || (token::valuesetfieldreference <= tok && tok <= token::STAR)
+                   || (token::GENERIC_INTEGER <= tok && tok <= token::xmlasn1typename));
 #endif
+      }
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, double v, location_type l)
-        : super_type(token_type (tok), std::move (v), std::move (l))
-      {
-        YYASSERT (tok == token::realnumber);
-      }
+        : super_type (token_kind_type (tok), std::move (v), std::move (l))
 #else
       symbol_type (int tok, const double& v, const location_type& l)
-        : super_type(token_type (tok), v, l)
+        : super_type (token_kind_type (tok), v, l)
+#endif
       {
-        YYASSERT (tok == token::realnumber);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT (tok == token::realnumber);
 #endif
+      }
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, int64_t v, location_type l)
-        : super_type(token_type (tok), std::move (v), std::move (l))
-      {
-        YYASSERT (tok == token::number || tok == token::negativenumber);
-      }
+        : super_type (token_kind_type (tok), std::move (v), std::move (l))
 #else
       symbol_type (int tok, const int64_t& v, const location_type& l)
-        : super_type(token_type (tok), v, l)
+        : super_type (token_kind_type (tok), v, l)
+#endif
       {
-        YYASSERT (tok == token::number || tok == token::negativenumber);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT ((token::number <= tok && tok <= token::negativenumber));
 #endif
+      }
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, std::string v, location_type l)
-        : super_type(token_type (tok), std::move (v), std::move (l))
-      {
-        YYASSERT (tok == token::bstring || tok == token::xmlbstring || tok == token::hstring || tok == token::xmlhstring || tok == token::cstring || tok == token::xmlcstring || tok == token::simplestring || tok == token::xmltstring || tok == token::objectreference || tok == token::typefieldreference || tok == token::valuefieldreference || tok == token::GENERIC_IDENTIFIER_UPPERCASE || tok == token::GENERIC_IDENTIFIER_LOWERCASE);
-      }
+        : super_type (token_kind_type (tok), std::move (v), std::move (l))
 #else
       symbol_type (int tok, const std::string& v, const location_type& l)
-        : super_type(token_type (tok), v, l)
+        : super_type (token_kind_type (tok), v, l)
+#endif
       {
-        YYASSERT (tok == token::bstring || tok == token::xmlbstring || tok == token::hstring || tok == token::xmlhstring || tok == token::cstring || tok == token::xmlcstring || tok == token::simplestring || tok == token::xmltstring || tok == token::objectreference || tok == token::typefieldreference || tok == token::valuefieldreference || tok == token::GENERIC_IDENTIFIER_UPPERCASE || tok == token::GENERIC_IDENTIFIER_LOWERCASE);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT ((token::bstring <= tok && tok <= token::xmltstring)
+                   || tok == token::objectreference
+                   || (token::typefieldreference <= tok && tok <= token::valuefieldreference)
+                   || (token::GENERIC_IDENTIFIER_UPPERCASE <= tok && tok <= token::GENERIC_IDENTIFIER_LOWERCASE));
 #endif
+      }
     };
 
     /// Build a parser object.
     asn1_parser (Context& context__yyarg);
     virtual ~asn1_parser ();
 
+#if 201103L <= YY_CPLUSPLUS
+    /// Non copyable.
+    asn1_parser (const asn1_parser&) = delete;
+    /// Non copyable.
+    asn1_parser& operator= (const asn1_parser&) = delete;
+#endif
+
     /// Parse.  An alias for parse ().
     /// \returns  0 iff parsing succeeded.
     int operator() ();
@@ -2485,7 +3327,11 @@ switch (yytype)
     /// Report a syntax error.
     void error (const syntax_error& err);
 
-    // Implementation of make_symbol for each symbol type.
+    /// The user-facing name of the symbol whose (internal) number is
+    /// YYSYMBOL.  No bounds checking.
+    static std::string symbol_name (symbol_kind_type yysymbol);
+
+    // Implementation of make_symbol for each token kind.
 #if 201103L <= YY_CPLUSPLUS
       static
       symbol_type
@@ -2501,6 +3347,36 @@ switch (yytype)
         return symbol_type (token::END_OF_FILE, l);
       }
 #endif
+#if 201103L <= YY_CPLUSPLUS
+      static
+      symbol_type
+      make_YYerror (location_type l)
+      {
+        return symbol_type (token::YYerror, std::move (l));
+      }
+#else
+      static
+      symbol_type
+      make_YYerror (const location_type& l)
+      {
+        return symbol_type (token::YYerror, l);
+      }
+#endif
+#if 201103L <= YY_CPLUSPLUS
+      static
+      symbol_type
+      make_YYUNDEF (location_type l)
+      {
+        return symbol_type (token::YYUNDEF, std::move (l));
+      }
+#else
+      static
+      symbol_type
+      make_YYUNDEF (const location_type& l)
+      {
+        return symbol_type (token::YYUNDEF, l);
+      }
+#endif
 #if 201103L <= YY_CPLUSPLUS
       static
       symbol_type
@@ -4708,93 +5584,119 @@ switch (yytype)
 #endif
 
 
+    class context
+    {
+    public:
+      context (const asn1_parser& yyparser, const symbol_type& yyla);
+      const symbol_type& lookahead () const YY_NOEXCEPT { return yyla_; }
+      symbol_kind_type token () const YY_NOEXCEPT { return yyla_.kind (); }
+      const location_type& location () const YY_NOEXCEPT { return yyla_.location; }
+
+      /// Put in YYARG at most YYARGN of the expected tokens, and return the
+      /// number of tokens stored in YYARG.  If YYARG is null, return the
+      /// number of expected tokens (guaranteed to be less than YYNTOKENS).
+      int expected_tokens (symbol_kind_type yyarg[], int yyargn) const;
+
+    private:
+      const asn1_parser& yyparser_;
+      const symbol_type& yyla_;
+    };
+
   private:
-    /// This class is not copyable.
+#if YY_CPLUSPLUS < 201103L
+    /// Non copyable.
     asn1_parser (const asn1_parser&);
+    /// Non copyable.
     asn1_parser& operator= (const asn1_parser&);
+#endif
 
-    /// State numbers.
-    typedef int state_type;
 
-    /// Generate an error message.
-    /// \param yystate   the state where the error occurred.
-    /// \param yyla      the lookahead token.
-    virtual std::string yysyntax_error_ (state_type yystate,
-                                         const symbol_type& yyla) const;
+    /// Stored state numbers (used for stacks).
+    typedef short state_type;
 
+    /// The arguments of the error message.
+    int yy_syntax_error_arguments_ (const context& yyctx,
+                                    symbol_kind_type yyarg[], int yyargn) const;
+
+    /// Generate an error message.
+    /// \param yyctx     the context in which the error occurred.
+    virtual std::string yysyntax_error_ (const context& yyctx) const;
     /// Compute post-reduction state.
     /// \param yystate   the current state
     /// \param yysym     the nonterminal to push on the stack
-    state_type yy_lr_goto_state_ (state_type yystate, int yysym);
+    static state_type yy_lr_goto_state_ (state_type yystate, int yysym);
 
     /// Whether the given \c yypact_ value indicates a defaulted state.
     /// \param yyvalue   the value to check
-    static bool yy_pact_value_is_default_ (int yyvalue);
+    static bool yy_pact_value_is_default_ (int yyvalue) YY_NOEXCEPT;
 
     /// Whether the given \c yytable_ value indicates a syntax error.
     /// \param yyvalue   the value to check
-    static bool yy_table_value_is_error_ (int yyvalue);
+    static bool yy_table_value_is_error_ (int yyvalue) YY_NOEXCEPT;
 
     static const short yypact_ninf_;
     static const short yytable_ninf_;
 
-    /// Convert a scanner token number \a t to a symbol number.
-    static token_number_type yytranslate_ (token_type t);
+    /// Convert a scanner token kind \a t to a symbol kind.
+    /// In theory \a t should be a token_kind_type, but character literals
+    /// are valid, yet not members of the token_kind_type enum.
+    static symbol_kind_type yytranslate_ (int t) YY_NOEXCEPT;
 
-    // Tables.
-  // YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
-  // STATE-NUM.
-  static const short yypact_[];
+    /// Convert the symbol name \a n to a form suitable for a diagnostic.
+    static std::string yytnamerr_ (const char *yystr);
 
-  // YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
-  // Performed when YYTABLE does not specify something else to do.  Zero
-  // means the default is an error.
-  static const unsigned short yydefact_[];
+    /// For a symbol, its name in clear.
+    static const char* const yytname_[];
 
-  // YYPGOTO[NTERM-NUM].
-  static const short yypgoto_[];
 
-  // YYDEFGOTO[NTERM-NUM].
-  static const short yydefgoto_[];
+    // Tables.
+    // YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
+    // STATE-NUM.
+    static const short yypact_[];
 
-  // YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
-  // positive, shift that token.  If negative, reduce the rule whose
-  // number is the opposite.  If YYTABLE_NINF, syntax error.
-  static const short yytable_[];
+    // YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
+    // Performed when YYTABLE does not specify something else to do.  Zero
+    // means the default is an error.
+    static const short yydefact_[];
 
-  static const short yycheck_[];
+    // YYPGOTO[NTERM-NUM].
+    static const short yypgoto_[];
 
-  // YYSTOS[STATE-NUM] -- The (internal number of the) accessing
-  // symbol of state STATE-NUM.
-  static const unsigned short yystos_[];
+    // YYDEFGOTO[NTERM-NUM].
+    static const short yydefgoto_[];
 
-  // YYR1[YYN] -- Symbol number of symbol that rule YYN derives.
-  static const unsigned short yyr1_[];
+    // YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
+    // positive, shift that token.  If negative, reduce the rule whose
+    // number is the opposite.  If YYTABLE_NINF, syntax error.
+    static const short yytable_[];
 
-  // YYR2[YYN] -- Number of symbols on the right hand side of rule YYN.
-  static const unsigned char yyr2_[];
+    static const short yycheck_[];
 
+    // YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
+    // state STATE-NUM.
+    static const short yystos_[];
 
-    /// Convert the symbol name \a n to a form suitable for a diagnostic.
-    static std::string yytnamerr_ (const char *n);
+    // YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.
+    static const short yyr1_[];
+
+    // YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.
+    static const signed char yyr2_[];
 
 
-    /// For a symbol, its name in clear.
-    static const char* const yytname_[];
 #if YYDEBUG
-  // YYRLINE[YYN] -- Source line where rule number YYN was defined.
-  static const unsigned short yyrline_[];
+    // YYRLINE[YYN] -- Source line where rule number YYN was defined.
+    static const short yyrline_[];
     /// Report on the debug stream that the rule \a r is going to be reduced.
-    virtual void yy_reduce_print_ (int r);
+    virtual void yy_reduce_print_ (int r) const;
     /// Print the state stack on the debug stream.
-    virtual void yystack_print_ ();
+    virtual void yy_stack_print_ () const;
 
     /// Debugging level.
     int yydebug_;
     /// Debug stream.
     std::ostream* yycdebug_;
 
-    /// \brief Display a symbol type, value and location.
+    /// \brief Display a symbol kind, value and location.
     /// \param yyo    The output stream.
     /// \param yysym  The symbol.
     template <typename Base>
@@ -4815,7 +5717,7 @@ switch (yytype)
       /// Default constructor.
       by_state () YY_NOEXCEPT;
 
-      /// The symbol type as needed by the constructor.
+      /// The symbol kind as needed by the constructor.
       typedef state_type kind_type;
 
       /// Constructor.
@@ -4827,15 +5729,16 @@ switch (yytype)
       /// Record that this symbol is empty.
       void clear () YY_NOEXCEPT;
 
-      /// Steal the symbol type from \a that.
+      /// Steal the symbol kind from \a that.
       void move (by_state& that);
 
-      /// The (internal) type number (corresponding to \a state).
-      /// \a empty_symbol when empty.
-      symbol_number_type type_get () const YY_NOEXCEPT;
+      /// The symbol kind (corresponding to \a state).
+      /// \a symbol_kind::S_YYEMPTY when empty.
+      symbol_kind_type kind () const YY_NOEXCEPT;
 
       /// The state number used to denote an empty symbol.
-      enum { empty_state = -1 };
+      /// We use the initial state, as it does not have a value.
+      enum { empty_state = 0 };
 
       /// The state.
       /// \a empty when empty.
@@ -4857,6 +5760,10 @@ switch (yytype)
       /// Assignment, needed by push_back by some old implementations.
       /// Moves the contents of that.
       stack_symbol_type& operator= (stack_symbol_type& that);
+
+      /// Assignment, needed by push_back by other implementations.
+      /// Needed by some other old implementations.
+      stack_symbol_type& operator= (const stack_symbol_type& that);
 #endif
     };
 
@@ -4866,48 +5773,38 @@ switch (yytype)
     {
     public:
       // Hide our reversed order.
-      typedef typename S::reverse_iterator iterator;
-      typedef typename S::const_reverse_iterator const_iterator;
+      typedef typename S::iterator iterator;
+      typedef typename S::const_iterator const_iterator;
       typedef typename S::size_type size_type;
+      typedef typename std::ptrdiff_t index_type;
 
-      stack (size_type n = 200)
+      stack (size_type n = 200) YY_NOEXCEPT
         : seq_ (n)
       {}
 
-      /// Random access.
-      ///
-      /// Index 0 returns the topmost element.
-      T&
-      operator[] (size_type i)
-      {
-        return seq_[size () - 1 - i];
-      }
-
-      /// Random access.
-      ///
-      /// Index 0 returns the topmost element.
-      T&
-      operator[] (int i)
-      {
-        return operator[] (size_type (i));
-      }
+#if 201103L <= YY_CPLUSPLUS
+      /// Non copyable.
+      stack (const stack&) = delete;
+      /// Non copyable.
+      stack& operator= (const stack&) = delete;
+#endif
 
       /// Random access.
       ///
       /// Index 0 returns the topmost element.
       const T&
-      operator[] (size_type i) const
+      operator[] (index_type i) const
       {
-        return seq_[size () - 1 - i];
+        return seq_[size_type (size () - 1 - i)];
       }
 
       /// Random access.
       ///
       /// Index 0 returns the topmost element.
-      const T&
-      operator[] (int i) const
+      T&
+      operator[] (index_type i)
       {
-        return operator[] (size_type (i));
+        return seq_[size_type (size () - 1 - i)];
       }
 
       /// Steal the contents of \a t.
@@ -4922,7 +5819,7 @@ switch (yytype)
 
       /// Pop elements from the stack.
       void
-      pop (int n = 1) YY_NOEXCEPT
+      pop (std::ptrdiff_t n = 1) YY_NOEXCEPT
       {
         for (; 0 < n; --n)
           seq_.pop_back ();
@@ -4936,49 +5833,53 @@ switch (yytype)
       }
 
       /// Number of elements on the stack.
-      size_type
+      index_type
       size () const YY_NOEXCEPT
       {
-        return seq_.size ();
+        return index_type (seq_.size ());
       }
 
       /// Iterator on top of the stack (going downwards).
       const_iterator
       begin () const YY_NOEXCEPT
       {
-        return seq_.rbegin ();
+        return seq_.begin ();
       }
 
       /// Bottom of the stack.
       const_iterator
       end () const YY_NOEXCEPT
       {
-        return seq_.rend ();
+        return seq_.end ();
       }
 
       /// Present a slice of the top of a stack.
       class slice
       {
       public:
-        slice (const stack& stack, int range)
+        slice (const stack& stack, index_type range) YY_NOEXCEPT
           : stack_ (stack)
           , range_ (range)
         {}
 
         const T&
-        operator[] (int i) const
+        operator[] (index_type i) const
         {
           return stack_[range_ - i];
         }
 
       private:
         const stack& stack_;
-        int range_;
+        index_type range_;
       };
 
     private:
+#if YY_CPLUSPLUS < 201103L
+      /// Non copyable.
       stack (const stack&);
+      /// Non copyable.
       stack& operator= (const stack&);
+#endif
       /// The wrapped container.
       S seq_;
     };
@@ -5006,32 +5907,29 @@ switch (yytype)
     void yypush_ (const char* m, state_type s, YY_MOVE_REF (symbol_type) sym);
 
     /// Pop \a n symbols from the stack.
-    void yypop_ (int n = 1);
+    void yypop_ (int n = 1) YY_NOEXCEPT;
 
     /// Constants.
     enum
     {
-      yyeof_ = 0,
       yylast_ = 5042,     ///< Last index in yytable_.
       yynnts_ = 225,  ///< Number of nonterminal symbols.
-      yyfinal_ = 6, ///< Termination state number.
-      yyterror_ = 1,
-      yyerrcode_ = 256,
-      yyntokens_ = 153  ///< Number of tokens.
+      yyfinal_ = 6 ///< Termination state number.
     };
 
 
     // User arguments.
     Context& context_;
+
   };
 
-  asn1_parser::token_number_type
-  asn1_parser::yytranslate_ (token_type t)
+  asn1_parser::symbol_kind_type
+  asn1_parser::yytranslate_ (int t) YY_NOEXCEPT
   {
     // YYTRANSLATE[TOKEN-NUM] -- Symbol number corresponding to
     // TOKEN-NUM as returned by yylex.
     static
-    const token_number_type
+    const unsigned char
     translate_table[] =
     {
        0,     2,     2,     2,     2,     2,     2,     2,     2,     2,
@@ -5076,689 +5974,348 @@ switch (yytype)
      135,   136,   137,   138,   139,   140,   141,   142,   143,   144,
      145,   146,   147,   148,   149,   150,   151,   152
     };
-    const unsigned user_token_number_max_ = 407;
-    const token_number_type undef_token_ = 2;
+    // Last valid token kind.
+    const int code_max = 407;
 
-    if (static_cast<int> (t) <= yyeof_)
-      return yyeof_;
-    else if (static_cast<unsigned> (t) <= user_token_number_max_)
-      return translate_table[t];
+    if (t <= 0)
+      return symbol_kind::S_YYEOF;
+    else if (t <= code_max)
+      return static_cast <symbol_kind_type> (translate_table[t]);
     else
-      return undef_token_;
+      return symbol_kind::S_YYUNDEF;
   }
 
   // basic_symbol.
-#if 201103L <= YY_CPLUSPLUS
   template <typename Base>
-  asn1_parser::basic_symbol<Base>::basic_symbol (basic_symbol&& that)
-    : Base (std::move (that))
+  asn1_parser::basic_symbol<Base>::basic_symbol (const basic_symbol& that)
+    : Base (that)
     , value ()
-    , location (std::move (that.location))
+    , location (that.location)
   {
-    switch (this->type_get ())
+    switch (this->kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
-        value.move< Assignment > (std::move (that.value));
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
+        value.copy< Assignment > (YY_MOVE (that.value));
         break;
 
-      case 283: // BitStringType
-        value.move< BitStringType > (std::move (that.value));
+      case symbol_kind::S_BitStringType: // BitStringType
+        value.copy< BitStringType > (YY_MOVE (that.value));
         break;
 
-      case 272: // BooleanType
-        value.move< BooleanType > (std::move (that.value));
+      case symbol_kind::S_BooleanType: // BooleanType
+        value.copy< BooleanType > (YY_MOVE (that.value));
         break;
 
-      case 273: // BooleanValue
-        value.move< BooleanValue > (std::move (that.value));
+      case symbol_kind::S_BooleanValue: // BooleanValue
+        value.copy< BooleanValue > (YY_MOVE (that.value));
         break;
 
-      case 264: // BuiltinType
-        value.move< BuiltinType > (std::move (that.value));
+      case symbol_kind::S_BuiltinType: // BuiltinType
+        value.copy< BuiltinType > (YY_MOVE (that.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
-        value.move< CharacterStringType > (std::move (that.value));
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
+        value.copy< CharacterStringType > (YY_MOVE (that.value));
         break;
 
-      case 295: // ChoiceType
-        value.move< ChoiceType > (std::move (that.value));
+      case symbol_kind::S_ChoiceType: // ChoiceType
+        value.copy< ChoiceType > (YY_MOVE (that.value));
         break;
 
-      case 305: // Class
-        value.move< Class > (std::move (that.value));
+      case symbol_kind::S_Class: // Class
+        value.copy< Class > (YY_MOVE (that.value));
         break;
 
-      case 289: // ComponentTypeLists
-        value.move< Collection > (std::move (that.value));
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
+        value.copy< Collection > (YY_MOVE (that.value));
         break;
 
-      case 291: // ComponentType
-        value.move< ComponentType > (std::move (that.value));
+      case symbol_kind::S_ComponentType: // ComponentType
+        value.copy< ComponentType > (YY_MOVE (that.value));
         break;
 
-      case 290: // ComponentTypeList
-        value.move< ComponentTypeList > (std::move (that.value));
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
+        value.copy< ComponentTypeList > (YY_MOVE (that.value));
         break;
 
-      case 326: // DateTimeType
-        value.move< DateTimeType > (std::move (that.value));
+      case symbol_kind::S_DateTimeType: // DateTimeType
+        value.copy< DateTimeType > (YY_MOVE (that.value));
         break;
 
-      case 324: // DateType
-        value.move< DateType > (std::move (that.value));
+      case symbol_kind::S_DateType: // DateType
+        value.copy< DateType > (YY_MOVE (that.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
-        value.move< DefinedType > (std::move (that.value));
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
+        value.copy< DefinedType > (YY_MOVE (that.value));
         break;
 
-      case 253: // DefinedValue
-        value.move< DefinedValue > (std::move (that.value));
+      case symbol_kind::S_DefinedValue: // DefinedValue
+        value.copy< DefinedValue > (YY_MOVE (that.value));
         break;
 
-      case 327: // DurationType
-        value.move< DurationType > (std::move (that.value));
+      case symbol_kind::S_DurationType: // DurationType
+        value.copy< DurationType > (YY_MOVE (that.value));
         break;
 
-      case 320: // EmbeddedPDVType
-        value.move< EmbeddedPDVType > (std::move (that.value));
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
+        value.copy< EmbeddedPDVType > (YY_MOVE (that.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
-        value.move< EnumeratedType > (std::move (that.value));
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
+        value.copy< EnumeratedType > (YY_MOVE (that.value));
         break;
 
-      case 281: // EnumerationItem
-        value.move< EnumerationValue > (std::move (that.value));
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
+        value.copy< EnumerationValue > (YY_MOVE (that.value));
         break;
 
-      case 321: // ExternalType
-        value.move< ExternalType > (std::move (that.value));
+      case symbol_kind::S_ExternalType: // ExternalType
+        value.copy< ExternalType > (YY_MOVE (that.value));
         break;
 
-      case 314: // IRIType
-        value.move< IRIType > (std::move (that.value));
+      case symbol_kind::S_IRIType: // IRIType
+        value.copy< IRIType > (YY_MOVE (that.value));
         break;
 
-      case 245: // SymbolsFromModule
-        value.move< Import > (std::move (that.value));
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
+        value.copy< Import > (YY_MOVE (that.value));
         break;
 
-      case 215: // InstanceOfType
-        value.move< InstanceOfType > (std::move (that.value));
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
+        value.copy< InstanceOfType > (YY_MOVE (that.value));
         break;
 
-      case 274: // IntegerType
-        value.move< IntegerType > (std::move (that.value));
+      case symbol_kind::S_IntegerType: // IntegerType
+        value.copy< IntegerType > (YY_MOVE (that.value));
         break;
 
-      case 239: // ModuleBody
-        value.move< Module > (std::move (that.value));
+      case symbol_kind::S_ModuleBody: // ModuleBody
+        value.copy< Module > (YY_MOVE (that.value));
         break;
 
-      case 276: // NamedNumber
-        value.move< NamedNumber > (std::move (that.value));
+      case symbol_kind::S_NamedNumber: // NamedNumber
+        value.copy< NamedNumber > (YY_MOVE (that.value));
         break;
 
-      case 265: // NamedType
-        value.move< NamedType > (std::move (that.value));
+      case symbol_kind::S_NamedType: // NamedType
+        value.copy< NamedType > (YY_MOVE (that.value));
         break;
 
-      case 287: // NullType
-        value.move< NullType > (std::move (that.value));
+      case symbol_kind::S_NullType: // NullType
+        value.copy< NullType > (YY_MOVE (that.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
-        value.move< ObjectClassAssignment > (std::move (that.value));
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
+        value.copy< ObjectClassAssignment > (YY_MOVE (that.value));
         break;
 
-      case 202: // ObjectClassFieldType
-        value.move< ObjectClassFieldType > (std::move (that.value));
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
+        value.copy< ObjectClassFieldType > (YY_MOVE (that.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
-        value.move< ObjectIdComponentValue > (std::move (that.value));
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
+        value.copy< ObjectIdComponentValue > (YY_MOVE (that.value));
         break;
 
-      case 306: // ObjectIdentifierType
-        value.move< ObjectIdentifierType > (std::move (that.value));
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
+        value.copy< ObjectIdentifierType > (YY_MOVE (that.value));
         break;
 
-      case 286: // OctetStringType
-        value.move< OctetStringType > (std::move (that.value));
+      case symbol_kind::S_OctetStringType: // OctetStringType
+        value.copy< OctetStringType > (YY_MOVE (that.value));
         break;
 
-      case 210: // Parameter
-        value.move< Parameter > (std::move (that.value));
+      case symbol_kind::S_Parameter: // Parameter
+        value.copy< Parameter > (YY_MOVE (that.value));
         break;
 
-      case 300: // PrefixedType
-        value.move< PrefixedType > (std::move (that.value));
+      case symbol_kind::S_PrefixedType: // PrefixedType
+        value.copy< PrefixedType > (YY_MOVE (that.value));
         break;
 
-      case 282: // RealType
-        value.move< RealType > (std::move (that.value));
+      case symbol_kind::S_RealType: // RealType
+        value.copy< RealType > (YY_MOVE (that.value));
         break;
 
-      case 319: // RelativeIRIType
-        value.move< RelativeIRIType > (std::move (that.value));
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
+        value.copy< RelativeIRIType > (YY_MOVE (that.value));
         break;
 
-      case 313: // RelativeOIDType
-        value.move< RelativeOIDType > (std::move (that.value));
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
+        value.copy< RelativeOIDType > (YY_MOVE (that.value));
         break;
 
-      case 292: // SequenceOfType
-        value.move< SequenceOfType > (std::move (that.value));
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
+        value.copy< SequenceOfType > (YY_MOVE (that.value));
         break;
 
-      case 288: // SequenceType
-        value.move< SequenceType > (std::move (that.value));
+      case symbol_kind::S_SequenceType: // SequenceType
+        value.copy< SequenceType > (YY_MOVE (that.value));
         break;
 
-      case 294: // SetOfType
-        value.move< SetOfType > (std::move (that.value));
+      case symbol_kind::S_SetOfType: // SetOfType
+        value.copy< SetOfType > (YY_MOVE (that.value));
         break;
 
-      case 293: // SetType
-        value.move< SetType > (std::move (that.value));
+      case symbol_kind::S_SetType: // SetType
+        value.copy< SetType > (YY_MOVE (that.value));
         break;
 
-      case 302: // Tag
-        value.move< Tag > (std::move (that.value));
+      case symbol_kind::S_Tag: // Tag
+        value.copy< Tag > (YY_MOVE (that.value));
         break;
 
-      case 301: // TaggedType
-        value.move< TaggedType > (std::move (that.value));
+      case symbol_kind::S_TaggedType: // TaggedType
+        value.copy< TaggedType > (YY_MOVE (that.value));
         break;
 
-      case 237: // TagDefault
-        value.move< TaggingMode > (std::move (that.value));
+      case symbol_kind::S_TagDefault: // TagDefault
+        value.copy< TaggingMode > (YY_MOVE (that.value));
         break;
 
-      case 325: // TimeOfDayType
-        value.move< TimeOfDayType > (std::move (that.value));
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
+        value.copy< TimeOfDayType > (YY_MOVE (that.value));
         break;
 
-      case 322: // TimeType
-        value.move< TimeType > (std::move (that.value));
+      case symbol_kind::S_TimeType: // TimeType
+        value.copy< TimeType > (YY_MOVE (that.value));
         break;
 
-      case 323: // TimeValue
-        value.move< TimeValue > (std::move (that.value));
+      case symbol_kind::S_TimeValue: // TimeValue
+        value.copy< TimeValue > (YY_MOVE (that.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
-        value.move< Type > (std::move (that.value));
-        break;
-
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
-        value.move< Value > (std::move (that.value));
-        break;
-
-      case 6: // realnumber
-        value.move< double > (std::move (that.value));
-        break;
-
-      case 304: // ClassNumber
-        value.move< int > (std::move (that.value));
-        break;
-
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
-        value.move< int64_t > (std::move (that.value));
-        break;
-
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
-        value.move< std::string > (std::move (that.value));
-        break;
-
-      case 250: // AssignmentList
-        value.move< std::vector<Assignment> > (std::move (that.value));
-        break;
-
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
-        value.move< std::vector<ClassField> > (std::move (that.value));
-        break;
-
-      case 240: // Exports
-        value.move< std::vector<Export> > (std::move (that.value));
-        break;
-
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
-        value.move< std::vector<Import> > (std::move (that.value));
-        break;
-
-      case 275: // NamedNumberList
-        value.move< std::vector<NamedNumber> > (std::move (that.value));
-        break;
-
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
-        value.move< std::vector<NamedType> > (std::move (that.value));
-        break;
-
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
-        value.move< std::vector<ObjectIdComponentValue> > (std::move (that.value));
-        break;
-
-      case 208: // ParameterList
-      case 209: // ParameterSeries
-        value.move< std::vector<Parameter> > (std::move (that.value));
-        break;
-
-      case 256: // ActualParameterList
-        value.move< std::vector<Type> > (std::move (that.value));
-        break;
-
-      case 271: // SequenceOfValues
-        value.move< std::vector<Value> > (std::move (that.value));
-        break;
-
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
-        value.move< std::vector<std::string> > (std::move (that.value));
-        break;
-
-      default:
-        break;
-    }
-
-  }
-#endif
-
-  template <typename Base>
-  asn1_parser::basic_symbol<Base>::basic_symbol (const basic_symbol& that)
-    : Base (that)
-    , value ()
-    , location (that.location)
-  {
-    switch (this->type_get ())
-    {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
-        value.copy< Assignment > (YY_MOVE (that.value));
-        break;
-
-      case 283: // BitStringType
-        value.copy< BitStringType > (YY_MOVE (that.value));
-        break;
-
-      case 272: // BooleanType
-        value.copy< BooleanType > (YY_MOVE (that.value));
-        break;
-
-      case 273: // BooleanValue
-        value.copy< BooleanValue > (YY_MOVE (that.value));
-        break;
-
-      case 264: // BuiltinType
-        value.copy< BuiltinType > (YY_MOVE (that.value));
-        break;
-
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
-        value.copy< CharacterStringType > (YY_MOVE (that.value));
-        break;
-
-      case 295: // ChoiceType
-        value.copy< ChoiceType > (YY_MOVE (that.value));
-        break;
-
-      case 305: // Class
-        value.copy< Class > (YY_MOVE (that.value));
-        break;
-
-      case 289: // ComponentTypeLists
-        value.copy< Collection > (YY_MOVE (that.value));
-        break;
-
-      case 291: // ComponentType
-        value.copy< ComponentType > (YY_MOVE (that.value));
-        break;
-
-      case 290: // ComponentTypeList
-        value.copy< ComponentTypeList > (YY_MOVE (that.value));
-        break;
-
-      case 326: // DateTimeType
-        value.copy< DateTimeType > (YY_MOVE (that.value));
-        break;
-
-      case 324: // DateType
-        value.copy< DateType > (YY_MOVE (that.value));
-        break;
-
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
-        value.copy< DefinedType > (YY_MOVE (that.value));
-        break;
-
-      case 253: // DefinedValue
-        value.copy< DefinedValue > (YY_MOVE (that.value));
-        break;
-
-      case 327: // DurationType
-        value.copy< DurationType > (YY_MOVE (that.value));
-        break;
-
-      case 320: // EmbeddedPDVType
-        value.copy< EmbeddedPDVType > (YY_MOVE (that.value));
-        break;
-
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
-        value.copy< EnumeratedType > (YY_MOVE (that.value));
-        break;
-
-      case 281: // EnumerationItem
-        value.copy< EnumerationValue > (YY_MOVE (that.value));
-        break;
-
-      case 321: // ExternalType
-        value.copy< ExternalType > (YY_MOVE (that.value));
-        break;
-
-      case 314: // IRIType
-        value.copy< IRIType > (YY_MOVE (that.value));
-        break;
-
-      case 245: // SymbolsFromModule
-        value.copy< Import > (YY_MOVE (that.value));
-        break;
-
-      case 215: // InstanceOfType
-        value.copy< InstanceOfType > (YY_MOVE (that.value));
-        break;
-
-      case 274: // IntegerType
-        value.copy< IntegerType > (YY_MOVE (that.value));
-        break;
-
-      case 239: // ModuleBody
-        value.copy< Module > (YY_MOVE (that.value));
-        break;
-
-      case 276: // NamedNumber
-        value.copy< NamedNumber > (YY_MOVE (that.value));
-        break;
-
-      case 265: // NamedType
-        value.copy< NamedType > (YY_MOVE (that.value));
-        break;
-
-      case 287: // NullType
-        value.copy< NullType > (YY_MOVE (that.value));
-        break;
-
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
-        value.copy< ObjectClassAssignment > (YY_MOVE (that.value));
-        break;
-
-      case 202: // ObjectClassFieldType
-        value.copy< ObjectClassFieldType > (YY_MOVE (that.value));
-        break;
-
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
-        value.copy< ObjectIdComponentValue > (YY_MOVE (that.value));
-        break;
-
-      case 306: // ObjectIdentifierType
-        value.copy< ObjectIdentifierType > (YY_MOVE (that.value));
-        break;
-
-      case 286: // OctetStringType
-        value.copy< OctetStringType > (YY_MOVE (that.value));
-        break;
-
-      case 210: // Parameter
-        value.copy< Parameter > (YY_MOVE (that.value));
-        break;
-
-      case 300: // PrefixedType
-        value.copy< PrefixedType > (YY_MOVE (that.value));
-        break;
-
-      case 282: // RealType
-        value.copy< RealType > (YY_MOVE (that.value));
-        break;
-
-      case 319: // RelativeIRIType
-        value.copy< RelativeIRIType > (YY_MOVE (that.value));
-        break;
-
-      case 313: // RelativeOIDType
-        value.copy< RelativeOIDType > (YY_MOVE (that.value));
-        break;
-
-      case 292: // SequenceOfType
-        value.copy< SequenceOfType > (YY_MOVE (that.value));
-        break;
-
-      case 288: // SequenceType
-        value.copy< SequenceType > (YY_MOVE (that.value));
-        break;
-
-      case 294: // SetOfType
-        value.copy< SetOfType > (YY_MOVE (that.value));
-        break;
-
-      case 293: // SetType
-        value.copy< SetType > (YY_MOVE (that.value));
-        break;
-
-      case 302: // Tag
-        value.copy< Tag > (YY_MOVE (that.value));
-        break;
-
-      case 301: // TaggedType
-        value.copy< TaggedType > (YY_MOVE (that.value));
-        break;
-
-      case 237: // TagDefault
-        value.copy< TaggingMode > (YY_MOVE (that.value));
-        break;
-
-      case 325: // TimeOfDayType
-        value.copy< TimeOfDayType > (YY_MOVE (that.value));
-        break;
-
-      case 322: // TimeType
-        value.copy< TimeType > (YY_MOVE (that.value));
-        break;
-
-      case 323: // TimeValue
-        value.copy< TimeValue > (YY_MOVE (that.value));
-        break;
-
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.copy< Type > (YY_MOVE (that.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.copy< Value > (YY_MOVE (that.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.copy< double > (YY_MOVE (that.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.copy< int > (YY_MOVE (that.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.copy< int64_t > (YY_MOVE (that.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.copy< std::string > (YY_MOVE (that.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.copy< std::vector<Assignment> > (YY_MOVE (that.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.copy< std::vector<ClassField> > (YY_MOVE (that.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.copy< std::vector<Export> > (YY_MOVE (that.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.copy< std::vector<Import> > (YY_MOVE (that.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.copy< std::vector<NamedNumber> > (YY_MOVE (that.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.copy< std::vector<NamedType> > (YY_MOVE (that.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.copy< std::vector<ObjectIdComponentValue> > (YY_MOVE (that.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.copy< std::vector<Parameter> > (YY_MOVE (that.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.copy< std::vector<Type> > (YY_MOVE (that.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.copy< std::vector<Value> > (YY_MOVE (that.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.copy< std::vector<std::string> > (YY_MOVE (that.value));
         break;
 
@@ -5770,11 +6327,20 @@ switch (yytype)
 
 
 
+
+  template <typename Base>
+  asn1_parser::symbol_kind_type
+  asn1_parser::basic_symbol<Base>::type_get () const YY_NOEXCEPT
+  {
+    return this->kind ();
+  }
+
+
   template <typename Base>
   bool
   asn1_parser::basic_symbol<Base>::empty () const YY_NOEXCEPT
   {
-    return Base::type_get () == empty_symbol;
+    return this->kind () == symbol_kind::S_YYEMPTY;
   }
 
   template <typename Base>
@@ -5782,330 +6348,330 @@ switch (yytype)
   asn1_parser::basic_symbol<Base>::move (basic_symbol& s)
   {
     super_type::move (s);
-    switch (this->type_get ())
+    switch (this->kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.move< Assignment > (YY_MOVE (s.value));
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.move< BitStringType > (YY_MOVE (s.value));
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.move< BooleanType > (YY_MOVE (s.value));
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.move< BooleanValue > (YY_MOVE (s.value));
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.move< BuiltinType > (YY_MOVE (s.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.move< CharacterStringType > (YY_MOVE (s.value));
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.move< ChoiceType > (YY_MOVE (s.value));
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.move< Class > (YY_MOVE (s.value));
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.move< Collection > (YY_MOVE (s.value));
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.move< ComponentType > (YY_MOVE (s.value));
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.move< ComponentTypeList > (YY_MOVE (s.value));
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.move< DateTimeType > (YY_MOVE (s.value));
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.move< DateType > (YY_MOVE (s.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.move< DefinedType > (YY_MOVE (s.value));
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.move< DefinedValue > (YY_MOVE (s.value));
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.move< DurationType > (YY_MOVE (s.value));
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.move< EmbeddedPDVType > (YY_MOVE (s.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.move< EnumeratedType > (YY_MOVE (s.value));
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.move< EnumerationValue > (YY_MOVE (s.value));
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.move< ExternalType > (YY_MOVE (s.value));
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.move< IRIType > (YY_MOVE (s.value));
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.move< Import > (YY_MOVE (s.value));
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.move< InstanceOfType > (YY_MOVE (s.value));
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.move< IntegerType > (YY_MOVE (s.value));
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.move< Module > (YY_MOVE (s.value));
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.move< NamedNumber > (YY_MOVE (s.value));
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.move< NamedType > (YY_MOVE (s.value));
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.move< NullType > (YY_MOVE (s.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.move< ObjectClassAssignment > (YY_MOVE (s.value));
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.move< ObjectClassFieldType > (YY_MOVE (s.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.move< ObjectIdComponentValue > (YY_MOVE (s.value));
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.move< ObjectIdentifierType > (YY_MOVE (s.value));
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.move< OctetStringType > (YY_MOVE (s.value));
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.move< Parameter > (YY_MOVE (s.value));
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.move< PrefixedType > (YY_MOVE (s.value));
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.move< RealType > (YY_MOVE (s.value));
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.move< RelativeIRIType > (YY_MOVE (s.value));
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.move< RelativeOIDType > (YY_MOVE (s.value));
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.move< SequenceOfType > (YY_MOVE (s.value));
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.move< SequenceType > (YY_MOVE (s.value));
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.move< SetOfType > (YY_MOVE (s.value));
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.move< SetType > (YY_MOVE (s.value));
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.move< Tag > (YY_MOVE (s.value));
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.move< TaggedType > (YY_MOVE (s.value));
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.move< TaggingMode > (YY_MOVE (s.value));
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.move< TimeOfDayType > (YY_MOVE (s.value));
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.move< TimeType > (YY_MOVE (s.value));
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.move< TimeValue > (YY_MOVE (s.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.move< Type > (YY_MOVE (s.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.move< Value > (YY_MOVE (s.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.move< double > (YY_MOVE (s.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< int > (YY_MOVE (s.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.move< int64_t > (YY_MOVE (s.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.move< std::string > (YY_MOVE (s.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.move< std::vector<Assignment> > (YY_MOVE (s.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.move< std::vector<ClassField> > (YY_MOVE (s.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.move< std::vector<Export> > (YY_MOVE (s.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.move< std::vector<Import> > (YY_MOVE (s.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.move< std::vector<NamedNumber> > (YY_MOVE (s.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.move< std::vector<NamedType> > (YY_MOVE (s.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.move< std::vector<ObjectIdComponentValue> > (YY_MOVE (s.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.move< std::vector<Parameter> > (YY_MOVE (s.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.move< std::vector<Type> > (YY_MOVE (s.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.move< std::vector<Value> > (YY_MOVE (s.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.move< std::vector<std::string> > (YY_MOVE (s.value));
         break;
 
@@ -6116,78 +6682,57 @@ switch (yytype)
     location = YY_MOVE (s.location);
   }
 
-  // by_type.
-  asn1_parser::by_type::by_type ()
-    : type (empty_symbol)
+  // by_kind.
+  asn1_parser::by_kind::by_kind () YY_NOEXCEPT
+    : kind_ (symbol_kind::S_YYEMPTY)
   {}
 
 #if 201103L <= YY_CPLUSPLUS
-  asn1_parser::by_type::by_type (by_type&& that)
-    : type (that.type)
+  asn1_parser::by_kind::by_kind (by_kind&& that) YY_NOEXCEPT
+    : kind_ (that.kind_)
   {
     that.clear ();
   }
 #endif
 
-  asn1_parser::by_type::by_type (const by_type& that)
-    : type (that.type)
+  asn1_parser::by_kind::by_kind (const by_kind& that) YY_NOEXCEPT
+    : kind_ (that.kind_)
   {}
 
-  asn1_parser::by_type::by_type (token_type t)
-    : type (yytranslate_ (t))
+  asn1_parser::by_kind::by_kind (token_kind_type t) YY_NOEXCEPT
+    : kind_ (yytranslate_ (t))
   {}
 
+
+
   void
-  asn1_parser::by_type::clear ()
+  asn1_parser::by_kind::clear () YY_NOEXCEPT
   {
-    type = empty_symbol;
+    kind_ = symbol_kind::S_YYEMPTY;
   }
 
   void
-  asn1_parser::by_type::move (by_type& that)
+  asn1_parser::by_kind::move (by_kind& that)
   {
-    type = that.type;
+    kind_ = that.kind_;
     that.clear ();
   }
 
-  int
-  asn1_parser::by_type::type_get () const YY_NOEXCEPT
+  asn1_parser::symbol_kind_type
+  asn1_parser::by_kind::kind () const YY_NOEXCEPT
   {
-    return type;
+    return kind_;
   }
 
-  asn1_parser::token_type
-  asn1_parser::by_type::token () const YY_NOEXCEPT
+
+  asn1_parser::symbol_kind_type
+  asn1_parser::by_kind::type_get () const YY_NOEXCEPT
   {
-    // YYTOKNUM[NUM] -- (External) token number corresponding to the
-    // (internal) symbol number NUM (which must be that of a token).  */
-    static
-    const unsigned short
-    yytoken_number_[] =
-    {
-       0,   256,   257,   258,   259,   260,   261,   262,   263,   264,
-     265,   266,   267,   268,   269,   270,   271,   272,   273,   274,
-     275,   276,   277,   278,   279,   280,   281,   282,   283,   284,
-     285,   286,   287,   288,   289,   290,   291,   292,   293,   294,
-     295,   296,   297,   298,   299,   300,   301,   302,   303,   304,
-     305,   306,   307,   308,   309,   310,   311,   312,   313,   314,
-     315,   316,   317,   318,   319,   320,   321,   322,   323,   324,
-     325,   326,   327,   328,   329,   330,   331,   332,   333,   334,
-     335,   336,   337,   338,   339,   340,   341,   342,   343,   344,
-     345,   346,   347,   348,   349,   350,   351,   352,   353,   354,
-     355,   356,   357,   358,   359,   360,   361,   362,   363,   364,
-     365,   366,   367,   368,   369,   370,   371,   372,   373,   374,
-     375,   376,   377,   378,   379,   380,   381,   382,   383,   384,
-     385,   386,   387,   388,   389,   390,   391,   392,   393,   394,
-     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
-     405,   406,   407
-    };
-    return token_type (yytoken_number_[type]);
+    return this->kind ();
   }
 
 
 } // yy
-#line 6189 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:431
 
 
 
@@ -6195,7 +6740,6 @@ switch (yytype)
 
 
 // Unqualified %code blocks.
-#line 16 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:435
 
     struct Context
     {
@@ -6211,7 +6755,6 @@ switch (yytype)
 
     namespace yy { asn1_parser::symbol_type yylex(Context& c); }
 
-#line 6213 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:435
 
 
 #ifndef YY_
@@ -6226,6 +6769,7 @@ switch (yytype)
 # endif
 #endif
 
+
 // Whether we are compiled with exception support.
 #ifndef YY_EXCEPTIONS
 # if defined __GNUC__ && !defined __EXCEPTIONS
@@ -6256,9 +6800,6 @@ switch (yytype)
 # endif
 
 
-// Suppress unused-variable warnings by "using" E.
-#define YYUSE(E) ((void) (E))
-
 // Enable debugging if requested.
 #if YYDEBUG
 
@@ -6284,13 +6825,13 @@ switch (yytype)
 # define YY_STACK_PRINT()               \
   do {                                  \
     if (yydebug_)                       \
-      yystack_print_ ();                \
+      yy_stack_print_ ();                \
   } while (false)
 
 #else // !YYDEBUG
 
 # define YYCDEBUG if (false) std::cerr
-# define YY_SYMBOL_PRINT(Title, Symbol)  YYUSE (Symbol)
+# define YY_SYMBOL_PRINT(Title, Symbol)  YY_USE (Symbol)
 # define YY_REDUCE_PRINT(Rule)           static_cast<void> (0)
 # define YY_STACK_PRINT()                static_cast<void> (0)
 
@@ -6304,70 +6845,28 @@ switch (yytype)
 #define YYERROR         goto yyerrorlab
 #define YYRECOVERING()  (!!yyerrstatus_)
 
-
 namespace yy {
-#line 6308 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:510
 
-  /* Return YYSTR after stripping away unnecessary quotes and
-     backslashes, so that it's suitable for yyerror.  The heuristic is
-     that double-quoting is unnecessary unless the string contains an
-     apostrophe, a comma, or backslash (other than backslash-backslash).
-     YYSTR is taken from yytname.  */
-  std::string
-  asn1_parser::yytnamerr_ (const char *yystr)
-  {
-    if (*yystr == '"')
-      {
-        std::string yyr;
-        char const *yyp = yystr;
+  /// Build a parser object.
+  asn1_parser::asn1_parser (Context& context__yyarg)
+#if YYDEBUG
+    : yydebug_ (false),
+      yycdebug_ (&std::cerr),
+#else
+    :
+#endif
+      context_ (context__yyarg)
+  {}
 
-        for (;;)
-          switch (*++yyp)
-            {
-            case '\'':
-            case ',':
-              goto do_not_strip_quotes;
-
-            case '\\':
-              if (*++yyp != '\\')
-                goto do_not_strip_quotes;
-              else
-                goto append;
-
-            append:
-            default:
-              yyr += *yyp;
-              break;
-
-            case '"':
-              return yyr;
-            }
-      do_not_strip_quotes: ;
-      }
-
-    return yystr;
-  }
-
-
-  /// Build a parser object.
-  asn1_parser::asn1_parser (Context& context__yyarg)
-    :
-#if YYDEBUG
-      yydebug_ (false),
-      yycdebug_ (&std::cerr),
-#endif
-      context_ (context__yyarg)
-  {}
-
-  asn1_parser::~asn1_parser ()
-  {}
+  asn1_parser::~asn1_parser ()
+  {}
 
   asn1_parser::syntax_error::~syntax_error () YY_NOEXCEPT YY_NOTHROW
   {}
 
-  /*---------------.
-  | Symbol types.  |
-  `---------------*/
+  /*---------.
+  | symbol.  |
+  `---------*/
 
 
 
@@ -6397,13 +6896,13 @@ namespace yy {
     : state (s)
   {}
 
-  asn1_parser::symbol_number_type
-  asn1_parser::by_state::type_get () const YY_NOEXCEPT
+  asn1_parser::symbol_kind_type
+  asn1_parser::by_state::kind () const YY_NOEXCEPT
   {
     if (state == empty_state)
-      return empty_symbol;
+      return symbol_kind::S_YYEMPTY;
     else
-      return yystos_[state];
+      return YY_CAST (symbol_kind_type, yystos_[+state]);
   }
 
   asn1_parser::stack_symbol_type::stack_symbol_type ()
@@ -6412,330 +6911,330 @@ namespace yy {
   asn1_parser::stack_symbol_type::stack_symbol_type (YY_RVREF (stack_symbol_type) that)
     : super_type (YY_MOVE (that.state), YY_MOVE (that.location))
   {
-    switch (that.type_get ())
+    switch (that.kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.YY_MOVE_OR_COPY< Assignment > (YY_MOVE (that.value));
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.YY_MOVE_OR_COPY< BitStringType > (YY_MOVE (that.value));
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.YY_MOVE_OR_COPY< BooleanType > (YY_MOVE (that.value));
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.YY_MOVE_OR_COPY< BooleanValue > (YY_MOVE (that.value));
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.YY_MOVE_OR_COPY< BuiltinType > (YY_MOVE (that.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.YY_MOVE_OR_COPY< CharacterStringType > (YY_MOVE (that.value));
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.YY_MOVE_OR_COPY< ChoiceType > (YY_MOVE (that.value));
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.YY_MOVE_OR_COPY< Class > (YY_MOVE (that.value));
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.YY_MOVE_OR_COPY< Collection > (YY_MOVE (that.value));
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.YY_MOVE_OR_COPY< ComponentType > (YY_MOVE (that.value));
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.YY_MOVE_OR_COPY< ComponentTypeList > (YY_MOVE (that.value));
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.YY_MOVE_OR_COPY< DateTimeType > (YY_MOVE (that.value));
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.YY_MOVE_OR_COPY< DateType > (YY_MOVE (that.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.YY_MOVE_OR_COPY< DefinedType > (YY_MOVE (that.value));
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.YY_MOVE_OR_COPY< DefinedValue > (YY_MOVE (that.value));
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.YY_MOVE_OR_COPY< DurationType > (YY_MOVE (that.value));
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.YY_MOVE_OR_COPY< EmbeddedPDVType > (YY_MOVE (that.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.YY_MOVE_OR_COPY< EnumeratedType > (YY_MOVE (that.value));
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.YY_MOVE_OR_COPY< EnumerationValue > (YY_MOVE (that.value));
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.YY_MOVE_OR_COPY< ExternalType > (YY_MOVE (that.value));
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.YY_MOVE_OR_COPY< IRIType > (YY_MOVE (that.value));
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.YY_MOVE_OR_COPY< Import > (YY_MOVE (that.value));
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.YY_MOVE_OR_COPY< InstanceOfType > (YY_MOVE (that.value));
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.YY_MOVE_OR_COPY< IntegerType > (YY_MOVE (that.value));
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.YY_MOVE_OR_COPY< Module > (YY_MOVE (that.value));
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.YY_MOVE_OR_COPY< NamedNumber > (YY_MOVE (that.value));
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.YY_MOVE_OR_COPY< NamedType > (YY_MOVE (that.value));
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.YY_MOVE_OR_COPY< NullType > (YY_MOVE (that.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.YY_MOVE_OR_COPY< ObjectClassAssignment > (YY_MOVE (that.value));
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.YY_MOVE_OR_COPY< ObjectClassFieldType > (YY_MOVE (that.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.YY_MOVE_OR_COPY< ObjectIdComponentValue > (YY_MOVE (that.value));
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.YY_MOVE_OR_COPY< ObjectIdentifierType > (YY_MOVE (that.value));
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.YY_MOVE_OR_COPY< OctetStringType > (YY_MOVE (that.value));
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.YY_MOVE_OR_COPY< Parameter > (YY_MOVE (that.value));
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.YY_MOVE_OR_COPY< PrefixedType > (YY_MOVE (that.value));
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.YY_MOVE_OR_COPY< RealType > (YY_MOVE (that.value));
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.YY_MOVE_OR_COPY< RelativeIRIType > (YY_MOVE (that.value));
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.YY_MOVE_OR_COPY< RelativeOIDType > (YY_MOVE (that.value));
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.YY_MOVE_OR_COPY< SequenceOfType > (YY_MOVE (that.value));
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.YY_MOVE_OR_COPY< SequenceType > (YY_MOVE (that.value));
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.YY_MOVE_OR_COPY< SetOfType > (YY_MOVE (that.value));
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.YY_MOVE_OR_COPY< SetType > (YY_MOVE (that.value));
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.YY_MOVE_OR_COPY< Tag > (YY_MOVE (that.value));
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.YY_MOVE_OR_COPY< TaggedType > (YY_MOVE (that.value));
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.YY_MOVE_OR_COPY< TaggingMode > (YY_MOVE (that.value));
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.YY_MOVE_OR_COPY< TimeOfDayType > (YY_MOVE (that.value));
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.YY_MOVE_OR_COPY< TimeType > (YY_MOVE (that.value));
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.YY_MOVE_OR_COPY< TimeValue > (YY_MOVE (that.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.YY_MOVE_OR_COPY< Type > (YY_MOVE (that.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.YY_MOVE_OR_COPY< Value > (YY_MOVE (that.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.YY_MOVE_OR_COPY< double > (YY_MOVE (that.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.YY_MOVE_OR_COPY< int > (YY_MOVE (that.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.YY_MOVE_OR_COPY< int64_t > (YY_MOVE (that.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.YY_MOVE_OR_COPY< std::string > (YY_MOVE (that.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.YY_MOVE_OR_COPY< std::vector<Assignment> > (YY_MOVE (that.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.YY_MOVE_OR_COPY< std::vector<ClassField> > (YY_MOVE (that.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.YY_MOVE_OR_COPY< std::vector<Export> > (YY_MOVE (that.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.YY_MOVE_OR_COPY< std::vector<Import> > (YY_MOVE (that.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.YY_MOVE_OR_COPY< std::vector<NamedNumber> > (YY_MOVE (that.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.YY_MOVE_OR_COPY< std::vector<NamedType> > (YY_MOVE (that.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.YY_MOVE_OR_COPY< std::vector<ObjectIdComponentValue> > (YY_MOVE (that.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.YY_MOVE_OR_COPY< std::vector<Parameter> > (YY_MOVE (that.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.YY_MOVE_OR_COPY< std::vector<Type> > (YY_MOVE (that.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.YY_MOVE_OR_COPY< std::vector<Value> > (YY_MOVE (that.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.YY_MOVE_OR_COPY< std::vector<std::string> > (YY_MOVE (that.value));
         break;
 
@@ -6752,330 +7251,330 @@ namespace yy {
   asn1_parser::stack_symbol_type::stack_symbol_type (state_type s, YY_MOVE_REF (symbol_type) that)
     : super_type (s, YY_MOVE (that.location))
   {
-    switch (that.type_get ())
+    switch (that.kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.move< Assignment > (YY_MOVE (that.value));
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.move< BitStringType > (YY_MOVE (that.value));
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.move< BooleanType > (YY_MOVE (that.value));
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.move< BooleanValue > (YY_MOVE (that.value));
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.move< BuiltinType > (YY_MOVE (that.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.move< CharacterStringType > (YY_MOVE (that.value));
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.move< ChoiceType > (YY_MOVE (that.value));
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.move< Class > (YY_MOVE (that.value));
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.move< Collection > (YY_MOVE (that.value));
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.move< ComponentType > (YY_MOVE (that.value));
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.move< ComponentTypeList > (YY_MOVE (that.value));
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.move< DateTimeType > (YY_MOVE (that.value));
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.move< DateType > (YY_MOVE (that.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.move< DefinedType > (YY_MOVE (that.value));
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.move< DefinedValue > (YY_MOVE (that.value));
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.move< DurationType > (YY_MOVE (that.value));
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.move< EmbeddedPDVType > (YY_MOVE (that.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.move< EnumeratedType > (YY_MOVE (that.value));
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.move< EnumerationValue > (YY_MOVE (that.value));
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.move< ExternalType > (YY_MOVE (that.value));
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.move< IRIType > (YY_MOVE (that.value));
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.move< Import > (YY_MOVE (that.value));
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.move< InstanceOfType > (YY_MOVE (that.value));
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.move< IntegerType > (YY_MOVE (that.value));
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.move< Module > (YY_MOVE (that.value));
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.move< NamedNumber > (YY_MOVE (that.value));
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.move< NamedType > (YY_MOVE (that.value));
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.move< NullType > (YY_MOVE (that.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.move< ObjectClassAssignment > (YY_MOVE (that.value));
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.move< ObjectClassFieldType > (YY_MOVE (that.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.move< ObjectIdComponentValue > (YY_MOVE (that.value));
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.move< ObjectIdentifierType > (YY_MOVE (that.value));
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.move< OctetStringType > (YY_MOVE (that.value));
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.move< Parameter > (YY_MOVE (that.value));
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.move< PrefixedType > (YY_MOVE (that.value));
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.move< RealType > (YY_MOVE (that.value));
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.move< RelativeIRIType > (YY_MOVE (that.value));
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.move< RelativeOIDType > (YY_MOVE (that.value));
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.move< SequenceOfType > (YY_MOVE (that.value));
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.move< SequenceType > (YY_MOVE (that.value));
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.move< SetOfType > (YY_MOVE (that.value));
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.move< SetType > (YY_MOVE (that.value));
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.move< Tag > (YY_MOVE (that.value));
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.move< TaggedType > (YY_MOVE (that.value));
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.move< TaggingMode > (YY_MOVE (that.value));
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.move< TimeOfDayType > (YY_MOVE (that.value));
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.move< TimeType > (YY_MOVE (that.value));
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.move< TimeValue > (YY_MOVE (that.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.move< Type > (YY_MOVE (that.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.move< Value > (YY_MOVE (that.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.move< double > (YY_MOVE (that.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< int > (YY_MOVE (that.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.move< int64_t > (YY_MOVE (that.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.move< std::string > (YY_MOVE (that.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.move< std::vector<Assignment> > (YY_MOVE (that.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.move< std::vector<ClassField> > (YY_MOVE (that.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.move< std::vector<Export> > (YY_MOVE (that.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.move< std::vector<Import> > (YY_MOVE (that.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.move< std::vector<NamedNumber> > (YY_MOVE (that.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.move< std::vector<NamedType> > (YY_MOVE (that.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.move< std::vector<ObjectIdComponentValue> > (YY_MOVE (that.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.move< std::vector<Parameter> > (YY_MOVE (that.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.move< std::vector<Type> > (YY_MOVE (that.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.move< std::vector<Value> > (YY_MOVE (that.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.move< std::vector<std::string> > (YY_MOVE (that.value));
         break;
 
@@ -7084,338 +7583,677 @@ namespace yy {
     }
 
     // that is emptied.
-    that.type = empty_symbol;
+    that.kind_ = symbol_kind::S_YYEMPTY;
   }
 
 #if YY_CPLUSPLUS < 201103L
+  asn1_parser::stack_symbol_type&
+  asn1_parser::stack_symbol_type::operator= (const stack_symbol_type& that)
+  {
+    state = that.state;
+    switch (that.kind ())
+    {
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
+        value.copy< Assignment > (that.value);
+        break;
+
+      case symbol_kind::S_BitStringType: // BitStringType
+        value.copy< BitStringType > (that.value);
+        break;
+
+      case symbol_kind::S_BooleanType: // BooleanType
+        value.copy< BooleanType > (that.value);
+        break;
+
+      case symbol_kind::S_BooleanValue: // BooleanValue
+        value.copy< BooleanValue > (that.value);
+        break;
+
+      case symbol_kind::S_BuiltinType: // BuiltinType
+        value.copy< BuiltinType > (that.value);
+        break;
+
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
+        value.copy< CharacterStringType > (that.value);
+        break;
+
+      case symbol_kind::S_ChoiceType: // ChoiceType
+        value.copy< ChoiceType > (that.value);
+        break;
+
+      case symbol_kind::S_Class: // Class
+        value.copy< Class > (that.value);
+        break;
+
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
+        value.copy< Collection > (that.value);
+        break;
+
+      case symbol_kind::S_ComponentType: // ComponentType
+        value.copy< ComponentType > (that.value);
+        break;
+
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
+        value.copy< ComponentTypeList > (that.value);
+        break;
+
+      case symbol_kind::S_DateTimeType: // DateTimeType
+        value.copy< DateTimeType > (that.value);
+        break;
+
+      case symbol_kind::S_DateType: // DateType
+        value.copy< DateType > (that.value);
+        break;
+
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
+        value.copy< DefinedType > (that.value);
+        break;
+
+      case symbol_kind::S_DefinedValue: // DefinedValue
+        value.copy< DefinedValue > (that.value);
+        break;
+
+      case symbol_kind::S_DurationType: // DurationType
+        value.copy< DurationType > (that.value);
+        break;
+
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
+        value.copy< EmbeddedPDVType > (that.value);
+        break;
+
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
+        value.copy< EnumeratedType > (that.value);
+        break;
+
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
+        value.copy< EnumerationValue > (that.value);
+        break;
+
+      case symbol_kind::S_ExternalType: // ExternalType
+        value.copy< ExternalType > (that.value);
+        break;
+
+      case symbol_kind::S_IRIType: // IRIType
+        value.copy< IRIType > (that.value);
+        break;
+
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
+        value.copy< Import > (that.value);
+        break;
+
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
+        value.copy< InstanceOfType > (that.value);
+        break;
+
+      case symbol_kind::S_IntegerType: // IntegerType
+        value.copy< IntegerType > (that.value);
+        break;
+
+      case symbol_kind::S_ModuleBody: // ModuleBody
+        value.copy< Module > (that.value);
+        break;
+
+      case symbol_kind::S_NamedNumber: // NamedNumber
+        value.copy< NamedNumber > (that.value);
+        break;
+
+      case symbol_kind::S_NamedType: // NamedType
+        value.copy< NamedType > (that.value);
+        break;
+
+      case symbol_kind::S_NullType: // NullType
+        value.copy< NullType > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
+        value.copy< ObjectClassAssignment > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
+        value.copy< ObjectClassFieldType > (that.value);
+        break;
+
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
+        value.copy< ObjectIdComponentValue > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
+        value.copy< ObjectIdentifierType > (that.value);
+        break;
+
+      case symbol_kind::S_OctetStringType: // OctetStringType
+        value.copy< OctetStringType > (that.value);
+        break;
+
+      case symbol_kind::S_Parameter: // Parameter
+        value.copy< Parameter > (that.value);
+        break;
+
+      case symbol_kind::S_PrefixedType: // PrefixedType
+        value.copy< PrefixedType > (that.value);
+        break;
+
+      case symbol_kind::S_RealType: // RealType
+        value.copy< RealType > (that.value);
+        break;
+
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
+        value.copy< RelativeIRIType > (that.value);
+        break;
+
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
+        value.copy< RelativeOIDType > (that.value);
+        break;
+
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
+        value.copy< SequenceOfType > (that.value);
+        break;
+
+      case symbol_kind::S_SequenceType: // SequenceType
+        value.copy< SequenceType > (that.value);
+        break;
+
+      case symbol_kind::S_SetOfType: // SetOfType
+        value.copy< SetOfType > (that.value);
+        break;
+
+      case symbol_kind::S_SetType: // SetType
+        value.copy< SetType > (that.value);
+        break;
+
+      case symbol_kind::S_Tag: // Tag
+        value.copy< Tag > (that.value);
+        break;
+
+      case symbol_kind::S_TaggedType: // TaggedType
+        value.copy< TaggedType > (that.value);
+        break;
+
+      case symbol_kind::S_TagDefault: // TagDefault
+        value.copy< TaggingMode > (that.value);
+        break;
+
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
+        value.copy< TimeOfDayType > (that.value);
+        break;
+
+      case symbol_kind::S_TimeType: // TimeType
+        value.copy< TimeType > (that.value);
+        break;
+
+      case symbol_kind::S_TimeValue: // TimeValue
+        value.copy< TimeValue > (that.value);
+        break;
+
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
+        value.copy< Type > (that.value);
+        break;
+
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
+        value.copy< Value > (that.value);
+        break;
+
+      case symbol_kind::S_realnumber: // realnumber
+        value.copy< double > (that.value);
+        break;
+
+      case symbol_kind::S_ClassNumber: // ClassNumber
+        value.copy< int > (that.value);
+        break;
+
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
+        value.copy< int64_t > (that.value);
+        break;
+
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
+        value.copy< std::string > (that.value);
+        break;
+
+      case symbol_kind::S_AssignmentList: // AssignmentList
+        value.copy< std::vector<Assignment> > (that.value);
+        break;
+
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
+        value.copy< std::vector<ClassField> > (that.value);
+        break;
+
+      case symbol_kind::S_Exports: // Exports
+        value.copy< std::vector<Export> > (that.value);
+        break;
+
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
+        value.copy< std::vector<Import> > (that.value);
+        break;
+
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
+        value.copy< std::vector<NamedNumber> > (that.value);
+        break;
+
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
+        value.copy< std::vector<NamedType> > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
+        value.copy< std::vector<ObjectIdComponentValue> > (that.value);
+        break;
+
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
+        value.copy< std::vector<Parameter> > (that.value);
+        break;
+
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
+        value.copy< std::vector<Type> > (that.value);
+        break;
+
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
+        value.copy< std::vector<Value> > (that.value);
+        break;
+
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
+        value.copy< std::vector<std::string> > (that.value);
+        break;
+
+      default:
+        break;
+    }
+
+    location = that.location;
+    return *this;
+  }
+
   asn1_parser::stack_symbol_type&
   asn1_parser::stack_symbol_type::operator= (stack_symbol_type& that)
   {
     state = that.state;
-    switch (that.type_get ())
+    switch (that.kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.move< Assignment > (that.value);
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.move< BitStringType > (that.value);
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.move< BooleanType > (that.value);
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.move< BooleanValue > (that.value);
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.move< BuiltinType > (that.value);
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.move< CharacterStringType > (that.value);
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.move< ChoiceType > (that.value);
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.move< Class > (that.value);
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.move< Collection > (that.value);
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.move< ComponentType > (that.value);
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.move< ComponentTypeList > (that.value);
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.move< DateTimeType > (that.value);
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.move< DateType > (that.value);
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.move< DefinedType > (that.value);
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.move< DefinedValue > (that.value);
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.move< DurationType > (that.value);
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.move< EmbeddedPDVType > (that.value);
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.move< EnumeratedType > (that.value);
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.move< EnumerationValue > (that.value);
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.move< ExternalType > (that.value);
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.move< IRIType > (that.value);
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.move< Import > (that.value);
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.move< InstanceOfType > (that.value);
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.move< IntegerType > (that.value);
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.move< Module > (that.value);
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.move< NamedNumber > (that.value);
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.move< NamedType > (that.value);
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.move< NullType > (that.value);
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.move< ObjectClassAssignment > (that.value);
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.move< ObjectClassFieldType > (that.value);
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.move< ObjectIdComponentValue > (that.value);
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.move< ObjectIdentifierType > (that.value);
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.move< OctetStringType > (that.value);
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.move< Parameter > (that.value);
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.move< PrefixedType > (that.value);
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.move< RealType > (that.value);
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.move< RelativeIRIType > (that.value);
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.move< RelativeOIDType > (that.value);
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.move< SequenceOfType > (that.value);
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.move< SequenceType > (that.value);
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.move< SetOfType > (that.value);
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.move< SetType > (that.value);
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.move< Tag > (that.value);
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.move< TaggedType > (that.value);
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.move< TaggingMode > (that.value);
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.move< TimeOfDayType > (that.value);
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.move< TimeType > (that.value);
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.move< TimeValue > (that.value);
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.move< Type > (that.value);
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.move< Value > (that.value);
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.move< double > (that.value);
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< int > (that.value);
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.move< int64_t > (that.value);
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.move< std::string > (that.value);
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.move< std::vector<Assignment> > (that.value);
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.move< std::vector<ClassField> > (that.value);
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.move< std::vector<Export> > (that.value);
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.move< std::vector<Import> > (that.value);
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.move< std::vector<NamedNumber> > (that.value);
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.move< std::vector<NamedType> > (that.value);
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.move< std::vector<ObjectIdComponentValue> > (that.value);
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.move< std::vector<Parameter> > (that.value);
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.move< std::vector<Type> > (that.value);
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.move< std::vector<Value> > (that.value);
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.move< std::vector<std::string> > (that.value);
         break;
 
@@ -7441,23 +8279,21 @@ namespace yy {
 #if YYDEBUG
   template <typename Base>
   void
-  asn1_parser::yy_print_ (std::ostream& yyo,
-                                     const basic_symbol<Base>& yysym) const
+  asn1_parser::yy_print_ (std::ostream& yyo, const basic_symbol<Base>& yysym) const
   {
     std::ostream& yyoutput = yyo;
-    YYUSE (yyoutput);
-    symbol_number_type yytype = yysym.type_get ();
-#if defined __GNUC__ && ! defined __clang__ && ! defined __ICC && __GNUC__ * 100 + __GNUC_MINOR__ <= 408
-    // Avoid a (spurious) G++ 4.8 warning about "array subscript is
-    // below array bounds".
+    YY_USE (yyoutput);
     if (yysym.empty ())
-      std::abort ();
-#endif
-    yyo << (yytype < yyntokens_ ? "token" : "nterm")
-        << ' ' << yytname_[yytype] << " ("
-        << yysym.location << ": ";
-    YYUSE (yytype);
-    yyo << ')';
+      yyo << "empty symbol";
+    else
+      {
+        symbol_kind_type yykind = yysym.kind ();
+        yyo << (yykind < YYNTOKENS ? "token" : "nterm")
+            << ' ' << yysym.name () << " ("
+            << yysym.location << ": ";
+        YY_USE (yykind);
+        yyo << ')';
+      }
   }
 #endif
 
@@ -7481,7 +8317,7 @@ namespace yy {
   }
 
   void
-  asn1_parser::yypop_ (int n)
+  asn1_parser::yypop_ (int n) YY_NOEXCEPT
   {
     yystack_.pop (n);
   }
@@ -7516,21 +8352,21 @@ namespace yy {
   asn1_parser::state_type
   asn1_parser::yy_lr_goto_state_ (state_type yystate, int yysym)
   {
-    int yyr = yypgoto_[yysym - yyntokens_] + yystate;
+    int yyr = yypgoto_[yysym - YYNTOKENS] + yystate;
     if (0 <= yyr && yyr <= yylast_ && yycheck_[yyr] == yystate)
       return yytable_[yyr];
     else
-      return yydefgoto_[yysym - yyntokens_];
+      return yydefgoto_[yysym - YYNTOKENS];
   }
 
   bool
-  asn1_parser::yy_pact_value_is_default_ (int yyvalue)
+  asn1_parser::yy_pact_value_is_default_ (int yyvalue) YY_NOEXCEPT
   {
     return yyvalue == yypact_ninf_;
   }
 
   bool
-  asn1_parser::yy_table_value_is_error_ (int yyvalue)
+  asn1_parser::yy_table_value_is_error_ (int yyvalue) YY_NOEXCEPT
   {
     return yyvalue == yytable_ninf_;
   }
@@ -7544,7 +8380,6 @@ namespace yy {
   int
   asn1_parser::parse ()
   {
-    // State.
     int yyn;
     /// Length of the RHS of the rule being reduced.
     int yylen = 0;
@@ -7580,7 +8415,8 @@ namespace yy {
   | yynewstate -- push a new symbol on the stack.  |
   `-----------------------------------------------*/
   yynewstate:
-    YYCDEBUG << "Entering state " << yystack_[0].state << '\n';
+    YYCDEBUG << "Entering state " << int (yystack_[0].state) << '\n';
+    YY_STACK_PRINT ();
 
     // Accept?
     if (yystack_[0].state == yyfinal_)
@@ -7594,14 +8430,14 @@ namespace yy {
   `-----------*/
   yybackup:
     // Try to take a decision without lookahead.
-    yyn = yypact_[yystack_[0].state];
+    yyn = yypact_[+yystack_[0].state];
     if (yy_pact_value_is_default_ (yyn))
       goto yydefault;
 
     // Read a lookahead token.
     if (yyla.empty ())
       {
-        YYCDEBUG << "Reading a token: ";
+        YYCDEBUG << "Reading a token\n";
 #if YY_EXCEPTIONS
         try
 #endif // YY_EXCEPTIONS
@@ -7620,11 +8456,23 @@ namespace yy {
       }
     YY_SYMBOL_PRINT ("Next token is", yyla);
 
+    if (yyla.kind () == symbol_kind::S_YYerror)
+    {
+      // The scanner already issued an error message, process directly
+      // to error recovery.  But do not keep the error token as
+      // lookahead, it is too special and may lead us to an endless
+      // loop in error recovery. */
+      yyla.kind_ = symbol_kind::S_YYUNDEF;
+      goto yyerrlab1;
+    }
+
     /* If the proper action on seeing token YYLA.TYPE is to reduce or
        to detect an error, take that action.  */
-    yyn += yyla.type_get ();
-    if (yyn < 0 || yylast_ < yyn || yycheck_[yyn] != yyla.type_get ())
-      goto yydefault;
+    yyn += yyla.kind ();
+    if (yyn < 0 || yylast_ < yyn || yycheck_[yyn] != yyla.kind ())
+      {
+        goto yydefault;
+      }
 
     // Reduce or error.
     yyn = yytable_[yyn];
@@ -7641,7 +8489,7 @@ namespace yy {
       --yyerrstatus_;
 
     // Shift the lookahead token.
-    yypush_ ("Shifting", yyn, YY_MOVE (yyla));
+    yypush_ ("Shifting", state_type (yyn), YY_MOVE (yyla));
     goto yynewstate;
 
 
@@ -7649,7 +8497,7 @@ namespace yy {
   | yydefault -- do the default action for the current state.  |
   `-----------------------------------------------------------*/
   yydefault:
-    yyn = yydefact_[yystack_[0].state];
+    yyn = yydefact_[+yystack_[0].state];
     if (yyn == 0)
       goto yyerrlab;
     goto yyreduce;
@@ -7668,328 +8516,328 @@ namespace yy {
          when using variants.  */
       switch (yyr1_[yyn])
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         yylhs.value.emplace< Assignment > ();
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         yylhs.value.emplace< BitStringType > ();
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         yylhs.value.emplace< BooleanType > ();
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         yylhs.value.emplace< BooleanValue > ();
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         yylhs.value.emplace< BuiltinType > ();
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         yylhs.value.emplace< CharacterStringType > ();
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         yylhs.value.emplace< ChoiceType > ();
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         yylhs.value.emplace< Class > ();
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         yylhs.value.emplace< Collection > ();
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         yylhs.value.emplace< ComponentType > ();
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         yylhs.value.emplace< ComponentTypeList > ();
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         yylhs.value.emplace< DateTimeType > ();
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         yylhs.value.emplace< DateType > ();
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         yylhs.value.emplace< DefinedType > ();
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         yylhs.value.emplace< DefinedValue > ();
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         yylhs.value.emplace< DurationType > ();
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         yylhs.value.emplace< EmbeddedPDVType > ();
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         yylhs.value.emplace< EnumeratedType > ();
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         yylhs.value.emplace< EnumerationValue > ();
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         yylhs.value.emplace< ExternalType > ();
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         yylhs.value.emplace< IRIType > ();
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         yylhs.value.emplace< Import > ();
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         yylhs.value.emplace< InstanceOfType > ();
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         yylhs.value.emplace< IntegerType > ();
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         yylhs.value.emplace< Module > ();
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         yylhs.value.emplace< NamedNumber > ();
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         yylhs.value.emplace< NamedType > ();
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         yylhs.value.emplace< NullType > ();
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         yylhs.value.emplace< ObjectClassAssignment > ();
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         yylhs.value.emplace< ObjectClassFieldType > ();
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         yylhs.value.emplace< ObjectIdComponentValue > ();
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         yylhs.value.emplace< ObjectIdentifierType > ();
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         yylhs.value.emplace< OctetStringType > ();
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         yylhs.value.emplace< Parameter > ();
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         yylhs.value.emplace< PrefixedType > ();
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         yylhs.value.emplace< RealType > ();
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         yylhs.value.emplace< RelativeIRIType > ();
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         yylhs.value.emplace< RelativeOIDType > ();
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         yylhs.value.emplace< SequenceOfType > ();
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         yylhs.value.emplace< SequenceType > ();
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         yylhs.value.emplace< SetOfType > ();
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         yylhs.value.emplace< SetType > ();
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         yylhs.value.emplace< Tag > ();
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         yylhs.value.emplace< TaggedType > ();
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         yylhs.value.emplace< TaggingMode > ();
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         yylhs.value.emplace< TimeOfDayType > ();
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         yylhs.value.emplace< TimeType > ();
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         yylhs.value.emplace< TimeValue > ();
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         yylhs.value.emplace< Type > ();
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         yylhs.value.emplace< Value > ();
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         yylhs.value.emplace< double > ();
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         yylhs.value.emplace< int > ();
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         yylhs.value.emplace< int64_t > ();
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         yylhs.value.emplace< std::string > ();
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         yylhs.value.emplace< std::vector<Assignment> > ();
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         yylhs.value.emplace< std::vector<ClassField> > ();
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         yylhs.value.emplace< std::vector<Export> > ();
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         yylhs.value.emplace< std::vector<Import> > ();
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         yylhs.value.emplace< std::vector<NamedNumber> > ();
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         yylhs.value.emplace< std::vector<NamedType> > ();
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         yylhs.value.emplace< std::vector<ObjectIdComponentValue> > ();
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         yylhs.value.emplace< std::vector<Parameter> > ();
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         yylhs.value.emplace< std::vector<Type> > ();
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         yylhs.value.emplace< std::vector<Value> > ();
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         yylhs.value.emplace< std::vector<std::string> > ();
         break;
 
@@ -8013,342 +8861,231 @@ namespace yy {
         {
           switch (yyn)
             {
-  case 4:
-#line 341 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 4: // ModuleDefinition: ModuleIdentifier DEFINITIONS EncodingReferenceDefault TagDefault ExtensionDefault "::=" BEGIN ModuleBody EncodingControlSections END
     { yystack_[2].value.as < Module > ().module_reference = yystack_[9].value.as < std::string > ();
       yystack_[2].value.as < Module > ().tagging_default = yystack_[6].value.as < TaggingMode > ();
       context_.asn1_tree.modules.push_back(yystack_[2].value.as < Module > ()); }
-#line 8020 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 10:
-#line 358 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 10: // UsefulObjectClassReference: TYPE_IDENTIFIER
     { yylhs.value.as < std::string > () = "TYPE-IDENTIFIER"; }
-#line 8026 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 11:
-#line 360 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 11: // UsefulObjectClassReference: ABSTRACT_SYNTAX
     { yylhs.value.as < std::string > () = "TYPE-IDENTIFIER"; }
-#line 8032 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 12:
-#line 364 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 12: // ObjectClassAssignment: typereference "::=" ObjectClass
     { yylhs.value.as < Assignment > () = Assignment{yystack_[2].value.as < std::string > (), yystack_[0].value.as < ObjectClassAssignment > ()}; }
-#line 8038 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 13:
-#line 368 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 13: // ObjectClass: DefinedObjectClass
     { feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClass"); }
-#line 8044 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 14:
-#line 370 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 14: // ObjectClass: ObjectClassDefn
     { yylhs.value.as < ObjectClassAssignment > () = yystack_[0].value.as < ObjectClassAssignment > (); }
-#line 8050 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 15:
-#line 375 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 15: // ObjectClassDefn: CLASS "{" FieldSpecList "}" WithSyntaxSpec
     { yylhs.value.as < ObjectClassAssignment > () = {yystack_[2].value.as < std::vector<ClassField> > ()}; }
-#line 8056 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 16:
-#line 379 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 16: // FieldSpecList: FieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[0].value.as < std::vector<ClassField> > (); }
-#line 8062 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 17:
-#line 381 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 17: // FieldSpecList: FieldSpecList "," FieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[2].value.as < std::vector<ClassField> > (); yylhs.value.as < std::vector<ClassField> > ().insert(yylhs.value.as < std::vector<ClassField> > ().end(), yystack_[0].value.as < std::vector<ClassField> > ().begin(), yystack_[0].value.as < std::vector<ClassField> > ().end()); }
-#line 8068 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 18:
-#line 385 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 18: // FieldSpec: TypeFieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[0].value.as < std::vector<ClassField> > (); }
-#line 8074 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 19:
-#line 387 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 19: // FieldSpec: FixedTypeValueFieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[0].value.as < std::vector<ClassField> > (); }
-#line 8080 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 24:
-#line 395 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 24: // FieldName: typefieldreference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8086 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 25:
-#line 397 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 25: // FieldName: valuefieldreference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8092 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 26:
-#line 405 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 26: // FieldNameList: FieldName
     { yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8098 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 27:
-#line 407 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 27: // FieldNameList: FieldNameList "." FieldName
     { yylhs.value.as < std::vector<std::string> > () = yystack_[2].value.as < std::vector<std::string> > (); yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8104 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 28:
-#line 411 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 28: // TypeFieldSpec: OneOrManyTypeFieldReference TypeOptionalitySpec
     { for (const std::string& name : yystack_[1].value.as < std::vector<std::string> > ()) yylhs.value.as < std::vector<ClassField> > ().push_back(ClassField{name, TypeField{}}); }
-#line 8110 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 29:
-#line 415 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 29: // OneOrManyTypeFieldReference: typefieldreference
     { yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8116 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 30:
-#line 417 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 30: // OneOrManyTypeFieldReference: OneOrManyTypeFieldReference typefieldreference
     { yylhs.value.as < std::vector<std::string> > () = yystack_[1].value.as < std::vector<std::string> > (); yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8122 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 37:
-#line 431 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 37: // FixedTypeValueFieldSpec: valuefieldreference Type OptionalUnique ValueOptionalitySpec
     { yylhs.value.as < std::vector<ClassField> > ().push_back(ClassField{yystack_[3].value.as < std::string > (), FixedTypeValueField{yystack_[2].value.as < Type > ()}}); }
-#line 8128 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 86:
-#line 546 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 86: // ObjectSetAssignment: typereference DefinedObjectSet "::=" ObjectSet
     { yylhs.value.as < Assignment > () = Assignment{yystack_[3].value.as < std::string > (), ObjectSetAssignment{}}; }
-#line 8134 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 93:
-#line 566 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 93: // ObjectClassFieldType: UsefulObjectClassReference "." FieldNameList
     { yylhs.value.as < ObjectClassFieldType > () = {DefinedType{{}, }, yystack_[0].value.as < std::vector<std::string> > ()}; }
-#line 8140 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 94:
-#line 568 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 94: // ObjectClassFieldType: typereference "." FieldNameList
     { yylhs.value.as < ObjectClassFieldType > () = {DefinedType{{}, yystack_[2].value.as < std::string > ()}, yystack_[0].value.as < std::vector<std::string> > ()}; }
-#line 8146 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 95:
-#line 575 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 95: // ParameterizedAssignment: ParameterizedTypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8152 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 96:
-#line 577 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 96: // ParameterizedAssignment: ParameterizedValueAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8158 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 97:
-#line 579 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 97: // ParameterizedAssignment: ParameterizedValueSetTypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8164 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 98:
-#line 581 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 98: // ParameterizedAssignment: ParameterizedObjectClassAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8170 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 99:
-#line 588 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 99: // ParameterizedTypeAssignment: typereference ParameterList "::=" Type
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), TypeAssignment{yystack_[0].value.as < Type > ()}, {}, yystack_[2].value.as < std::vector<Parameter> > () }; }
-#line 8176 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 100:
-#line 592 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 100: // ParameterizedValueAssignment: valuereference ParameterList Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[4].value.as < std::string > (), ValueAssignment{} }; }
-#line 8182 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 101:
-#line 596 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 101: // ParameterizedValueSetTypeAssignment: typereference ParameterList Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[4].value.as < std::string > (), ValueAssignment{} }; }
-#line 8188 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 102:
-#line 600 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 102: // ParameterizedObjectClassAssignment: typereference ParameterList "::=" ObjectClass
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), ObjectClassAssignment{} }; }
-#line 8194 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 103:
-#line 612 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 103: // ParameterList: "{" ParameterSeries "}"
     { yylhs.value.as < std::vector<Parameter> > () = yystack_[1].value.as < std::vector<Parameter> > (); }
-#line 8200 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 104:
-#line 616 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 104: // ParameterSeries: Parameter
     { yylhs.value.as < std::vector<Parameter> > ().push_back(yystack_[0].value.as < Parameter > ()); }
-#line 8206 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 105:
-#line 618 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 105: // ParameterSeries: ParameterSeries "," Parameter
     { yylhs.value.as < std::vector<Parameter> > () = yystack_[2].value.as < std::vector<Parameter> > (); yylhs.value.as < std::vector<Parameter> > ().push_back(yystack_[0].value.as < Parameter > ()); }
-#line 8212 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 106:
-#line 622 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 106: // Parameter: ParamGovernor ":" Reference
     { yylhs.value.as < Parameter > () = Parameter{yystack_[2].value.as < Type > (), yystack_[0].value.as < std::string > ()}; }
-#line 8218 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 107:
-#line 624 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 107: // Parameter: Reference
     { yylhs.value.as < Parameter > () = Parameter{{}, yystack_[0].value.as < std::string > ()}; }
-#line 8224 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 108:
-#line 628 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 108: // ParamGovernor: Governor
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8230 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 109:
-#line 630 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 109: // ParamGovernor: Reference
     { yylhs.value.as < Type > () = DefinedType{{}, yystack_[0].value.as < std::string > ()}; }
-#line 8236 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 110:
-#line 634 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 110: // Governor: Type
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8242 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 111:
-#line 636 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 111: // Governor: DefinedObjectClass
     { }
-#line 8248 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 114:
-#line 673 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 114: // InstanceOfType: INSTANCE OF DefinedObjectClass
     { feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
-#line 8254 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 116:
-#line 682 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 116: // SimpleDefinedType: typereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8260 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 122:
-#line 695 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 122: // UserDefinedConstraint: CONSTRAINED BY "{" UserDefinedConstraintParameter "}"
     { feature_not_implemented(context_.location, context_.asn1_tree, "UserDefinedConstraint", "Not yet checking contraints. "); }
-#line 8266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 130:
-#line 709 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 130: // TableConstraint: ObjectSet
     { std::cerr << "Simple constraint\n"; }
-#line 8272 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 131:
-#line 711 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 131: // TableConstraint: ObjectSet "{" AtNotationList "}"
     { std::cerr << "Relation constraint\n"; }
-#line 8278 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 144:
-#line 753 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    {
+  case 144: // ModuleIdentifier: modulereference DefinitiveIdentification
+{
     yylhs.value.as < std::string > () = yystack_[1].value.as < std::string > ();
 }
-#line 8286 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 159:
-#line 792 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 159: // TagDefault: EXPLICIT TAGS
     { yylhs.value.as < TaggingMode > () = TaggingMode::explicit_; }
-#line 8292 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 160:
-#line 794 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 160: // TagDefault: IMPLICIT TAGS
     { yylhs.value.as < TaggingMode > () = TaggingMode::implicit; }
-#line 8298 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 161:
-#line 796 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 161: // TagDefault: AUTOMATIC TAGS
     { yylhs.value.as < TaggingMode > () = TaggingMode::automatic; }
-#line 8304 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 162:
-#line 798 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 162: // TagDefault: %empty
     { yylhs.value.as < TaggingMode > () = TaggingMode::explicit_; }
-#line 8310 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 165:
-#line 806 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 165: // ModuleBody: Exports Imports AssignmentList
     { yylhs.value.as < Module > () = Module{ {}, TaggingMode(), yystack_[2].value.as < std::vector<Export> > (), yystack_[1].value.as < std::vector<Import> > (), yystack_[0].value.as < std::vector<Assignment> > ()}; }
-#line 8316 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 166:
-#line 808 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 166: // ModuleBody: %empty
     { }
-#line 8322 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 172:
-#line 821 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 172: // Imports: IMPORTS SymbolsImported ";"
     { yylhs.value.as < std::vector<Import> > () = yystack_[1].value.as < std::vector<Import> > (); }
-#line 8328 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 174:
-#line 826 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 174: // SymbolsImported: SymbolsFromModuleList
     { yylhs.value.as < std::vector<Import> > () = yystack_[0].value.as < std::vector<Import> > (); }
-#line 8334 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 176:
-#line 831 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 176: // SymbolsFromModuleList: SymbolsFromModule
     { yylhs.value.as < std::vector<Import> > ().push_back(yystack_[0].value.as < Import > ()); }
-#line 8340 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 177:
-#line 833 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 177: // SymbolsFromModuleList: SymbolsFromModuleList SymbolsFromModule
     { yylhs.value.as < std::vector<Import> > () = yystack_[1].value.as < std::vector<Import> > (); yylhs.value.as < std::vector<Import> > ().push_back(yystack_[0].value.as < Import > ()); }
-#line 8346 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 178:
-#line 837 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 178: // SymbolsFromModule: SymbolList FROM GlobalModuleReference
     { yylhs.value.as < Import > () = Import{ yystack_[0].value.as < std::string > (), {}, {} };
       for (const std::string& ref: yystack_[2].value.as < std::vector<std::string> > ())
       {
@@ -8362,1267 +9099,854 @@ namespace yy {
         }
       }
     }
-#line 8364 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 179:
-#line 853 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 179: // GlobalModuleReference: modulereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8370 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 180:
-#line 855 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 180: // GlobalModuleReference: modulereference ObjectIdentifierValue
     { yylhs.value.as < std::string > () = yystack_[1].value.as < std::string > (); }
-#line 8376 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 181:
-#line 861 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 181: // SymbolList: Symbol
     { yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8382 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 182:
-#line 863 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 182: // SymbolList: SymbolList "," Symbol
     { yylhs.value.as < std::vector<std::string> > () = yystack_[2].value.as < std::vector<std::string> > (); yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8388 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 183:
-#line 867 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 183: // Symbol: Reference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8394 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 184:
-#line 871 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 184: // Reference: typereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8400 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 185:
-#line 873 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 185: // Reference: typereference "{" "}"
     { yylhs.value.as < std::string > () = yystack_[2].value.as < std::string > (); }
-#line 8406 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 186:
-#line 875 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 186: // Reference: valuereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8412 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 187:
-#line 884 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 187: // AssignmentList: Assignment
     { yylhs.value.as < std::vector<Assignment> > ().push_back(yystack_[0].value.as < Assignment > ()); }
-#line 8418 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 188:
-#line 886 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 188: // AssignmentList: Assignment AssignmentList
     { yylhs.value.as < std::vector<Assignment> > () = yystack_[0].value.as < std::vector<Assignment> > (); yylhs.value.as < std::vector<Assignment> > ().push_back(yystack_[1].value.as < Assignment > ()); }
-#line 8424 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 189:
-#line 890 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 189: // Assignment: TypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8430 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 190:
-#line 892 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 190: // Assignment: ValueAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8436 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 191:
-#line 894 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 191: // Assignment: ObjectClassAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8442 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 192:
-#line 896 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 192: // Assignment: ValueSetTypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8448 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 193:
-#line 899 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 193: // Assignment: ObjectSetAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8454 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 194:
-#line 901 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 194: // Assignment: ParameterizedAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8460 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 195:
-#line 905 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 195: // DefinedType: ExternalTypeReference
     { yylhs.value.as < DefinedType > () = yystack_[0].value.as < DefinedType > (); }
-#line 8466 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 196:
-#line 907 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 196: // DefinedType: typereference
     { yylhs.value.as < DefinedType > () = DefinedType{absl::nullopt, yystack_[0].value.as < std::string > (), {}}; }
-#line 8472 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 197:
-#line 909 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 197: // DefinedType: ParameterizedType
     { yylhs.value.as < DefinedType > () = yystack_[0].value.as < DefinedType > (); }
-#line 8478 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 198:
-#line 915 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 198: // DefinedValue: valuereference
     { yylhs.value.as < DefinedValue > () = DefinedValue{yystack_[0].value.as < std::string > ()}; }
-#line 8484 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 200:
-#line 920 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 200: // ParameterizedType: SimpleDefinedType "{" ActualParameterList "}"
     { yylhs.value.as < DefinedType > () = DefinedType{ absl::nullopt, yystack_[3].value.as < std::string > (), yystack_[1].value.as < std::vector<Type> > ()}; }
-#line 8490 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 202:
-#line 927 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 202: // ActualParameterList: ActualParameter
     { yylhs.value.as < std::vector<Type> > ().push_back(yystack_[0].value.as < Type > ()); }
-#line 8496 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 203:
-#line 929 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 203: // ActualParameterList: ActualParameter "," ActualParameterList
     { yylhs.value.as < std::vector<Type> > () = yystack_[0].value.as < std::vector<Type> > (); yylhs.value.as < std::vector<Type> > ().push_back(yystack_[2].value.as < Type > ()); }
-#line 8502 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 204:
-#line 933 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 204: // ActualParameter: Type
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8508 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 205:
-#line 935 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 205: // ActualParameter: ValueWithoutTypeIdentifier
     { std::cerr << "Warning: Not yet dealing with value paramaters\n"; }
-#line 8514 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 207:
-#line 948 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 207: // ExternalTypeReference: typereference "." typereference
     { yylhs.value.as < DefinedType > () = DefinedType{yystack_[2].value.as < std::string > (), yystack_[0].value.as < std::string > (), {}}; }
-#line 8520 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 209:
-#line 977 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 209: // TypeAssignment: typereference "::=" Type
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[2].value.as < std::string > (), TypeAssignment{yystack_[0].value.as < Type > ()}, {} }; }
-#line 8526 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 210:
-#line 981 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 210: // ValueAssignment: valuereference Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), ValueAssignment{yystack_[2].value.as < Type > (), yystack_[0].value.as < Value > ()}, {} }; }
-#line 8532 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 211:
-#line 985 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 211: // ValueSetTypeAssignment: typereference Type "::=" ValueSet
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), TypeAssignment{yystack_[2].value.as < Type > ()}, {} }; }
-#line 8538 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 212:
-#line 989 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 212: // Type: BuiltinType
     { yylhs.value.as < Type > () = yystack_[0].value.as < BuiltinType > (); }
-#line 8544 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 213:
-#line 991 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 213: // Type: ConstrainedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8550 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 214:
-#line 993 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 214: // Type: DefinedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < DefinedType > (); }
-#line 8556 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 215:
-#line 995 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 215: // Type: SelectionType
     { feature_not_implemented(context_.location, context_.asn1_tree, "SelectionType"); }
-#line 8562 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 216:
-#line 997 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 216: // Type: TypeFromObject
     { feature_not_implemented(context_.location, context_.asn1_tree, "TypeFromObject"); }
-#line 8568 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 217:
-#line 1001 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = AnyType(); }
-#line 8574 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 217: // BuiltinType: ANY
+        { yylhs.value.as < BuiltinType > () = AnyType(); }
     break;
 
-  case 218:
-#line 1002 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BitStringType > (); }
-#line 8580 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 218: // BuiltinType: BitStringType
+                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BitStringType > (); }
     break;
 
-  case 219:
-#line 1003 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BooleanType > (); }
-#line 8586 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 219: // BuiltinType: BooleanType
+                { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BooleanType > (); }
     break;
 
-  case 220:
-#line 1004 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < CharacterStringType > (); }
-#line 8592 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 220: // BuiltinType: CharacterStringType
+                        { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < CharacterStringType > (); }
     break;
 
-  case 221:
-#line 1005 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ChoiceType > (); }
-#line 8598 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 221: // BuiltinType: ChoiceType
+               { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ChoiceType > (); }
     break;
 
-  case 222:
-#line 1006 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateType"); }
-#line 8604 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 222: // BuiltinType: DateType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateType"); }
     break;
 
-  case 223:
-#line 1007 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateTimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateTimeType"); }
-#line 8610 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 223: // BuiltinType: DateTimeType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateTimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateTimeType"); }
     break;
 
-  case 224:
-#line 1008 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DurationType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DurationType"); }
-#line 8616 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 224: // BuiltinType: DurationType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DurationType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DurationType"); }
     break;
 
-  case 225:
-#line 1009 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EmbeddedPDVType > (); feature_not_implemented(context_.location, context_.asn1_tree, "EmbeddedPDVType"); }
-#line 8622 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 225: // BuiltinType: EmbeddedPDVType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EmbeddedPDVType > (); feature_not_implemented(context_.location, context_.asn1_tree, "EmbeddedPDVType"); }
     break;
 
-  case 226:
-#line 1010 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EnumeratedType > (); }
-#line 8628 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 226: // BuiltinType: EnumeratedType
+                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EnumeratedType > (); }
     break;
 
-  case 227:
-#line 1011 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ExternalType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ExternalType"); }
-#line 8634 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 227: // BuiltinType: ExternalType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ExternalType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ExternalType"); }
     break;
 
-  case 228:
-#line 1012 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = GeneralizedTimeType(); }
-#line 8640 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 228: // BuiltinType: GeneralizedTime
+                    { yylhs.value.as < BuiltinType > () = GeneralizedTimeType(); }
     break;
 
-  case 229:
-#line 1013 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < InstanceOfType > (); feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
-#line 8646 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 229: // BuiltinType: InstanceOfType
+                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < InstanceOfType > (); feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
     break;
 
-  case 230:
-#line 1014 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IntegerType > (); }
-#line 8652 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 230: // BuiltinType: IntegerType
+                { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IntegerType > (); }
     break;
 
-  case 231:
-#line 1015 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "IRIType"); }
-#line 8658 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 231: // BuiltinType: IRIType
+            { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "IRIType"); }
     break;
 
-  case 232:
-#line 1016 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < NullType > (); }
-#line 8664 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 232: // BuiltinType: NullType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < NullType > (); }
     break;
 
-  case 233:
-#line 1017 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectClassFieldType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClassFieldType"); }
-#line 8670 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 233: // BuiltinType: ObjectClassFieldType
+                         { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectClassFieldType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClassFieldType"); }
     break;
 
-  case 234:
-#line 1018 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = ObjectDescriptorType(); }
-#line 8676 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 234: // BuiltinType: ObjectDescriptor
+                     { yylhs.value.as < BuiltinType > () = ObjectDescriptorType(); }
     break;
 
-  case 235:
-#line 1019 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectIdentifierType > (); }
-#line 8682 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 235: // BuiltinType: ObjectIdentifierType
+                         { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectIdentifierType > (); }
     break;
 
-  case 236:
-#line 1020 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < OctetStringType > (); }
-#line 8688 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 236: // BuiltinType: OctetStringType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < OctetStringType > (); }
     break;
 
-  case 237:
-#line 1021 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RealType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RealType"); }
-#line 8694 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 237: // BuiltinType: RealType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RealType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RealType"); }
     break;
 
-  case 238:
-#line 1022 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeIRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeIRIType"); }
-#line 8700 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 238: // BuiltinType: RelativeIRIType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeIRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeIRIType"); }
     break;
 
-  case 239:
-#line 1023 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeOIDType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeOIDType"); }
-#line 8706 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 239: // BuiltinType: RelativeOIDType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeOIDType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeOIDType"); }
     break;
 
-  case 240:
-#line 1024 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceType > (); }
-#line 8712 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 240: // BuiltinType: SequenceType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceType > (); }
     break;
 
-  case 241:
-#line 1025 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceOfType > (); }
-#line 8718 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 241: // BuiltinType: SequenceOfType
+                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceOfType > (); }
     break;
 
-  case 242:
-#line 1026 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetType > (); }
-#line 8724 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 242: // BuiltinType: SetType
+            { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetType > (); }
     break;
 
-  case 243:
-#line 1027 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetOfType > (); }
-#line 8730 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 243: // BuiltinType: SetOfType
+              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetOfType > (); }
     break;
 
-  case 244:
-#line 1028 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < PrefixedType > (); }
-#line 8736 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 244: // BuiltinType: PrefixedType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < PrefixedType > (); }
     break;
 
-  case 245:
-#line 1029 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeType"); }
-#line 8742 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 245: // BuiltinType: TimeType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeType"); }
     break;
 
-  case 246:
-#line 1030 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeOfDayType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeOfDayType"); }
-#line 8748 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 246: // BuiltinType: TimeOfDayType
+                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeOfDayType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeOfDayType"); }
     break;
 
-  case 247:
-#line 1031 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = UTCTimeType(); feature_not_implemented(context_.location, context_.asn1_tree, "UTCTime"); }
-#line 8754 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 247: // BuiltinType: UTCTime
+            { yylhs.value.as < BuiltinType > () = UTCTimeType(); feature_not_implemented(context_.location, context_.asn1_tree, "UTCTime"); }
     break;
 
-  case 248:
-#line 1035 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 248: // NamedType: identifier Type
     { yylhs.value.as < NamedType > () = NamedType{ yystack_[1].value.as < std::string > (), yystack_[0].value.as < Type > () }; }
-#line 8760 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 249:
-#line 1039 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 249: // ValueWithoutTypeIdentifier: BooleanValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < BooleanValue > (); }
-#line 8766 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 250:
-#line 1041 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 250: // ValueWithoutTypeIdentifier: IRIValue
     { std::cerr << std::string("Warning: Unhandled field: IRIValue\n"); }
-#line 8772 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 251:
-#line 1043 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 251: // ValueWithoutTypeIdentifier: ASN_NULL
     { yylhs.value.as < Value > ().value_selection = NullValue{}; }
-#line 8778 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 252:
-#line 1045 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 252: // ValueWithoutTypeIdentifier: TimeValue
     { std::cerr << std::string("Warning: Unhandled field: TimeValue\n"); }
-#line 8784 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 253:
-#line 1047 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 253: // ValueWithoutTypeIdentifier: bstring
     { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 8790 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 254:
-#line 1049 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 254: // ValueWithoutTypeIdentifier: hstring
     { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 8796 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 255:
-#line 1051 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 255: // ValueWithoutTypeIdentifier: cstring
     { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 8802 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 256:
-#line 1053 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 256: // ValueWithoutTypeIdentifier: CONTAINING Value
     { std::cerr << std::string("Warning: Unhandled field: CONTAINING\n"); }
-#line 8808 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 257:
-#line 1055 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 257: // ValueWithoutTypeIdentifier: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
-#line 8814 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 258:
-#line 1057 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 258: // ValueWithoutTypeIdentifier: GENERIC_IDENTIFIER_LOWERCASE "(" number ")"
     { yylhs.value.as < Value > ().value_selection = NamedNumber{yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > (), {}}; }
-#line 8820 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 260:
-#line 1060 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 260: // ValueWithoutTypeIdentifier: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
-#line 8826 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 261:
-#line 1062 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 261: // ValueWithoutTypeIdentifier: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
-#line 8832 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 262:
-#line 1064 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 262: // ValueWithoutTypeIdentifier: ObjectClassFieldType
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
-#line 8838 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 263:
-#line 1066 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 263: // ValueWithoutTypeIdentifier: Value ":" Value
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
-#line 8844 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 268:
-#line 1074 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 268: // ValueWithoutTypeIdentifier: "{" SequenceOfValues "}"
     { yylhs.value.as < Value > ().value_selection = yystack_[1].value.as < std::vector<Value> > (); }
-#line 8850 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 269:
-#line 1076 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 269: // ValueWithoutTypeIdentifier: ValueChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueChoice\n"); }
-#line 8856 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 270:
-#line 1078 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 270: // ValueWithoutTypeIdentifier: OPTIONAL
     { std::cerr << std::string("Warning: Unhandled field: OPTIONAL\n"); }
-#line 8862 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 271:
-#line 1080 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 271: // ValueWithoutTypeIdentifier: ValueCommaListChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
-#line 8868 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 272:
-#line 1082 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 272: // ValueWithoutTypeIdentifier: BY
     { std::cerr << std::string("Warning: Unhandled field: BY\n"); }
-#line 8874 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 273:
-#line 1084 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 273: // ValueWithoutTypeIdentifier: WITH
     { std::cerr << std::string("Warning: Unhandled field: WITH\n"); }
-#line 8880 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 274:
-#line 1089 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 274: // Value: ValueWithoutTypeIdentifier
     { yylhs.value.as < Value > () = yystack_[0].value.as < Value > (); }
-#line 8886 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 275:
-#line 1091 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 275: // Value: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
-#line 8892 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 282:
-#line 1107 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 282: // SequenceOfValues: Value
     { yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
-#line 8898 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 283:
-#line 1109 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 283: // SequenceOfValues: SequenceOfValues Value
     { yylhs.value.as < std::vector<Value> > () = yystack_[1].value.as < std::vector<Value> > (); yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
-#line 8904 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 285:
-#line 1120 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 285: // BooleanValue: TRUE
     { yylhs.value.as < BooleanValue > () = {true}; }
-#line 8910 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 286:
-#line 1122 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 286: // BooleanValue: FALSE
     { yylhs.value.as < BooleanValue > () = {false}; }
-#line 8916 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 287:
-#line 1126 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 287: // IntegerType: INTEGER
     { yylhs.value.as < IntegerType > () = IntegerType{{}}; }
-#line 8922 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 288:
-#line 1128 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 288: // IntegerType: INTEGER "{" NamedNumberList "}"
     { yylhs.value.as < IntegerType > () = IntegerType{yystack_[1].value.as < std::vector<NamedNumber> > ()}; }
-#line 8928 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 289:
-#line 1132 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 289: // NamedNumberList: NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = {yystack_[0].value.as < NamedNumber > ()}; }
-#line 8934 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 290:
-#line 1134 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 290: // NamedNumberList: NamedNumberList "," NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = yystack_[2].value.as < std::vector<NamedNumber> > (); yylhs.value.as < std::vector<NamedNumber> > ().push_back(yystack_[0].value.as < NamedNumber > ()); }
-#line 8940 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 291:
-#line 1138 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 291: // NamedNumber: identifier "(" SignedNumber ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > (), {} }; }
-#line 8946 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 292:
-#line 1140 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 292: // NamedNumber: identifier "(" DefinedValue ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), 0, yystack_[1].value.as < DefinedValue > ().reference }; }
-#line 8952 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 293:
-#line 1144 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 293: // SignedNumber: number
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
-#line 8958 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 294:
-#line 1146 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 294: // SignedNumber: negativenumber
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
-#line 8964 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 295:
-#line 1150 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 295: // EnumeratedType: ENUMERATED "{" Enumerations "}"
     { yylhs.value.as < EnumeratedType > () = yystack_[1].value.as < EnumeratedType > (); }
-#line 8970 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 296:
-#line 1154 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 296: // Enumerations: Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[0].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = false; }
-#line 8977 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 297:
-#line 1157 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 297: // Enumerations: Enumeration "," "..." ExceptionSpec
     { yylhs.value.as < EnumeratedType > () = yystack_[3].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true; }
-#line 8984 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 298:
-#line 1160 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 298: // Enumerations: Enumeration "," "..." ExceptionSpec "," Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[5].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true; yylhs.value.as < EnumeratedType > ().root_size = yylhs.value.as < EnumeratedType > ().enum_values.size();
       yylhs.value.as < EnumeratedType > ().enum_values.insert(yylhs.value.as < EnumeratedType > ().enum_values.end(), yystack_[0].value.as < EnumeratedType > ().enum_values.begin(), yystack_[0].value.as < EnumeratedType > ().enum_values.end()); }
-#line 8992 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 300:
-#line 1167 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 300: // Enumeration: EnumerationItem
     { yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
-#line 8998 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 301:
-#line 1169 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 301: // Enumeration: Enumeration "," EnumerationItem
     { yylhs.value.as < EnumeratedType > () = yystack_[2].value.as < EnumeratedType > (); yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
-#line 9004 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 302:
-#line 1173 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 302: // EnumerationItem: identifier
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < std::string > (); }
-#line 9010 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 303:
-#line 1175 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 303: // EnumerationItem: NamedNumber
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < NamedNumber > ().name;
       yylhs.value.as < EnumerationValue > ().value = yystack_[0].value.as < NamedNumber > ().number; yylhs.value.as < EnumerationValue > ().reference = yystack_[0].value.as < NamedNumber > ().reference; }
-#line 9017 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 305:
-#line 1186 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 305: // BitStringType: BIT STRING
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
-#line 9023 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 306:
-#line 1188 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 306: // BitStringType: BIT STRING "{" NamedBitList "}"
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
-#line 9029 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 313:
-#line 1217 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 313: // SequenceType: SEQUENCE "{" "}"
     { yylhs.value.as < SequenceType > () = SequenceType(); }
-#line 9035 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 314:
-#line 1219 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 314: // SequenceType: SEQUENCE "{" ComponentTypeLists "}"
     { yylhs.value.as < SequenceType > () = SequenceType{yystack_[1].value.as < Collection > ()}; }
-#line 9041 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 315:
-#line 1223 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 315: // ComponentTypeLists: ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > (); }
-#line 9047 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 316:
-#line 1225 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 316: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = yystack_[3].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9054 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 317:
-#line 1228 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 317: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[5].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9062 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 318:
-#line 1232 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 318: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..."
     { yylhs.value.as < Collection > ().components = yystack_[7].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[2].value.as < ComponentTypeList > ().begin(), yystack_[2].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9070 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 319:
-#line 1236 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 319: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..." "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[9].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[4].value.as < ComponentTypeList > ().begin(), yystack_[4].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9079 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 320:
-#line 1241 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 320: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9086 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 321:
-#line 1244 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 321: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList "," "..."
     { yylhs.value.as < Collection > ().components = yystack_[2].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9093 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 322:
-#line 1247 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 322: // ComponentTypeLists: "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9100 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 323:
-#line 1250 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 323: // ComponentTypeLists: "..." ExceptionSpec "," "..."
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9107 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 324:
-#line 1255 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 324: // ComponentTypeList: ComponentType
     { yylhs.value.as < ComponentTypeList > () = ComponentTypeList{yystack_[0].value.as < ComponentType > ()}; }
-#line 9113 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 325:
-#line 1257 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 325: // ComponentTypeList: ComponentTypeList "," ComponentType
     { yystack_[2].value.as < ComponentTypeList > ().push_back(yystack_[0].value.as < ComponentType > ()); yylhs.value.as < ComponentTypeList > () = yystack_[2].value.as < ComponentTypeList > (); }
-#line 9119 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 326:
-#line 1261 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 326: // ComponentType: Type
     { std::cerr << context_.location << " WARNING: unnamed type\n";
       yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[0].value.as < Type > ()}, false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9126 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 327:
-#line 1264 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 327: // ComponentType: Type OPTIONAL
     { std::cerr << context_.location << " WARNING: unnamed type\n";
       yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[1].value.as < Type > ()}, true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9133 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 328:
-#line 1267 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 328: // ComponentType: Type DEFAULT SingleValue
     { yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[2].value.as < Type > ()}, false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_ };
       std::cerr << context_.location << " WARNING: unnamed type\n"; }
-#line 9140 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 329:
-#line 1270 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 329: // ComponentType: NamedType
     { yylhs.value.as < ComponentType > () = ComponentType{yystack_[0].value.as < NamedType > (), false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9146 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 330:
-#line 1272 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 330: // ComponentType: NamedType OPTIONAL
     { yylhs.value.as < ComponentType > () = ComponentType{yystack_[1].value.as < NamedType > (), true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9152 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 331:
-#line 1274 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 331: // ComponentType: NamedType DEFAULT SingleValue
     { yylhs.value.as < ComponentType > () = ComponentType{yystack_[2].value.as < NamedType > (), false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_ }; }
-#line 9158 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 332:
-#line 1276 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 332: // ComponentType: COMPONENTS OF Type
     { yylhs.value.as < ComponentType > () = ComponentType{{}, false, absl::nullopt, yystack_[0].value.as < Type > (), StorageMode::static_}; }
-#line 9164 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 333:
-#line 1288 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 333: // SequenceOfType: SEQUENCE OF Type
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9170 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 334:
-#line 1290 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 334: // SequenceOfType: SEQUENCE OF NamedType
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9176 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 335:
-#line 1294 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 335: // SetType: SET "{" "}"
     { yylhs.value.as < SetType > () = SetType{}; }
-#line 9182 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 336:
-#line 1296 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 336: // SetType: SET "{" ComponentTypeLists "}"
     { yylhs.value.as < SetType > () = SetType{yystack_[1].value.as < Collection > ()}; }
-#line 9188 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 337:
-#line 1300 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 337: // SetOfType: SET OF Type
     { yylhs.value.as < SetOfType > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9194 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 338:
-#line 1302 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 338: // SetOfType: SET OF NamedType
     { yylhs.value.as < SetOfType > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9200 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 339:
-#line 1306 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 339: // ChoiceType: CHOICE "{" AlternativeTypeLists "}"
     { yylhs.value.as < ChoiceType > () = ChoiceType{ yystack_[1].value.as < std::vector<NamedType> > (), StorageMode::static_ }; }
-#line 9206 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 340:
-#line 1310 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 340: // AlternativeTypeLists: RootAlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
-#line 9212 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 341:
-#line 1314 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 341: // RootAlternativeTypeList: AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
-#line 9218 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 342:
-#line 1316 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 342: // RootAlternativeTypeList: AlternativeTypeList "," "..."
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
-#line 9224 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 343:
-#line 1318 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 343: // RootAlternativeTypeList: AlternativeTypeList "," "..." "," AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
-#line 9230 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 344:
-#line 1322 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 344: // AlternativeTypeList: NamedType
     { yylhs.value.as < std::vector<NamedType> > () = std::vector<NamedType> { yystack_[0].value.as < NamedType > () }; }
-#line 9236 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 345:
-#line 1324 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 345: // AlternativeTypeList: AlternativeTypeList "," NamedType
     { yystack_[2].value.as < std::vector<NamedType> > ().push_back( yystack_[0].value.as < NamedType > () ); yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
-#line 9242 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 347:
-#line 1334 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 347: // PrefixedType: TaggedType
     { yylhs.value.as < PrefixedType > () = PrefixedType(yystack_[0].value.as < TaggedType > ()); }
-#line 9248 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 348:
-#line 1338 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 348: // TaggedType: Tag Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[1].value.as < Tag > (), TaggingMode::automatic, yystack_[0].value.as < Type > () }; }
-#line 9254 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 349:
-#line 1340 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 349: // TaggedType: Tag IMPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::implicit, yystack_[0].value.as < Type > () }; }
-#line 9260 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 350:
-#line 1342 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 350: // TaggedType: Tag EXPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::explicit_, yystack_[0].value.as < Type > () }; }
-#line 9266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 351:
-#line 1346 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 351: // Tag: "[" EncodingReference Class ClassNumber "]"
     { yylhs.value.as < Tag > () = Tag{ yystack_[2].value.as < Class > (), yystack_[1].value.as < int > () }; }
-#line 9272 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 354:
-#line 1354 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 354: // ClassNumber: number
     { yylhs.value.as < int > () = yystack_[0].value.as < int64_t > (); }
-#line 9278 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 356:
-#line 1359 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 356: // Class: UNIVERSAL
     { yylhs.value.as < Class > () = Class::universal; }
-#line 9284 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 357:
-#line 1361 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 357: // Class: APPLICATION
     { yylhs.value.as < Class > () = Class::application; }
-#line 9290 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 358:
-#line 1363 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 358: // Class: PRIVATE
     { yylhs.value.as < Class > () = Class::private_; }
-#line 9296 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 359:
-#line 1365 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 359: // Class: %empty
     { yylhs.value.as < Class > () = Class::context_specific; }
-#line 9302 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 361:
-#line 1378 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 361: // ObjectIdentifierValue: "{" ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
-#line 9308 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 362:
-#line 1380 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 362: // ObjectIdentifierValue: "{" DefinedValue ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
-#line 9314 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 363:
-#line 1384 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 363: // ObjIdComponentsList: ObjIdComponents
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[0].value.as < ObjectIdComponentValue > ()); }
-#line 9320 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 364:
-#line 1386 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 364: // ObjIdComponentsList: ObjIdComponents ObjIdComponentsList
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[0].value.as < std::vector<ObjectIdComponentValue> > (); yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[1].value.as < ObjectIdComponentValue > ()); }
-#line 9326 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 365:
-#line 1390 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 365: // ObjIdComponents: NameForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
-#line 9332 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 366:
-#line 1392 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 366: // ObjIdComponents: NumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
-#line 9338 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 367:
-#line 1394 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 367: // ObjIdComponents: NameAndNumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
-#line 9344 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 368:
-#line 1398 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 368: // NameForm: identifier
     { yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[0].value.as < std::string > (); }
-#line 9350 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 369:
-#line 1402 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 369: // NumberForm: number
     { yylhs.value.as < ObjectIdComponentValue > ().value = yystack_[0].value.as < int64_t > (); }
-#line 9356 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 371:
-#line 1407 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 371: // NameAndNumberForm: identifier "(" NumberForm ")"
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[1].value.as < ObjectIdComponentValue > (); yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[3].value.as < std::string > (); }
-#line 9362 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 389:
-#line 1480 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 389: // CharacterStringType: RestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
-#line 9368 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 390:
-#line 1482 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 390: // CharacterStringType: UnrestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
-#line 9374 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 391:
-#line 1486 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 391: // RestrictedCharacterStringType: BMPString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::bmp_string; }
-#line 9380 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 392:
-#line 1488 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 392: // RestrictedCharacterStringType: GeneralString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::general_string; }
-#line 9386 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 393:
-#line 1490 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 393: // RestrictedCharacterStringType: GraphicString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::graphic_string; }
-#line 9392 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 394:
-#line 1492 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 394: // RestrictedCharacterStringType: IA5String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::ia5_string; }
-#line 9398 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 395:
-#line 1494 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 395: // RestrictedCharacterStringType: ISO646String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::iso646_string; }
-#line 9404 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 396:
-#line 1496 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 396: // RestrictedCharacterStringType: NumericString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::numeric_string; }
-#line 9410 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 397:
-#line 1498 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 397: // RestrictedCharacterStringType: PrintableString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::printable_string; }
-#line 9416 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 398:
-#line 1500 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 398: // RestrictedCharacterStringType: TeletexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::teletex_string; }
-#line 9422 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 399:
-#line 1502 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 399: // RestrictedCharacterStringType: T61String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::t61_string; }
-#line 9428 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 400:
-#line 1504 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 400: // RestrictedCharacterStringType: UniversalString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::universal_string; }
-#line 9434 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 401:
-#line 1506 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 401: // RestrictedCharacterStringType: UTF8String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::utf8_string; }
-#line 9440 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 402:
-#line 1508 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 402: // RestrictedCharacterStringType: VideotexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::videotex_string; }
-#line 9446 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 403:
-#line 1510 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 403: // RestrictedCharacterStringType: VisibleString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::visible_string; }
-#line 9452 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 404:
-#line 1514 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 404: // UnrestrictedCharacterStringType: CHARACTER STRING
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::character_string; }
-#line 9458 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 405:
-#line 1518 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 405: // ConstrainedType: Type Constraint
     { yylhs.value.as < Type > () = yystack_[1].value.as < Type > (); }
-#line 9464 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 406:
-#line 1520 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 406: // ConstrainedType: TypeWithConstraint
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); feature_not_implemented(context_.location, context_.asn1_tree, "TypeWithConstraint", "Not yet checking contraints. ");  }
-#line 9470 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 407:
-#line 1524 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 407: // TypeWithConstraint: SET Constraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9476 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 408:
-#line 1526 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 408: // TypeWithConstraint: SET SizeConstraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9482 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 409:
-#line 1528 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 409: // TypeWithConstraint: SEQUENCE Constraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9488 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 410:
-#line 1530 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 410: // TypeWithConstraint: SEQUENCE SizeConstraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9494 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 411:
-#line 1532 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 411: // TypeWithConstraint: SET Constraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9500 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 412:
-#line 1534 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 412: // TypeWithConstraint: SET SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9506 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 413:
-#line 1536 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 413: // TypeWithConstraint: SEQUENCE Constraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9512 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 414:
-#line 1538 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 414: // TypeWithConstraint: SEQUENCE SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9518 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 415:
-#line 1542 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 415: // Constraint: "(" ConstraintSpec ExceptionSpec ")"
     { feature_not_implemented(context_.location, context_.asn1_tree, "ConstraintSpec", "Not yet checking contraints. "); }
-#line 9524 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 449:
-#line 1613 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 449: // SingleValue: BooleanValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < BooleanValue > (); }
-#line 9530 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 450:
-#line 1616 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 450: // SingleValue: ASN_NULL
     { yylhs.value.as < Value > ().value_selection = NullValue{}; }
-#line 9536 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 451:
-#line 1618 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 451: // SingleValue: TimeValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < TimeValue > (); }
-#line 9542 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 452:
-#line 1620 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 452: // SingleValue: bstring
     { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 9548 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 453:
-#line 1622 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 453: // SingleValue: hstring
     { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 9554 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 454:
-#line 1624 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 454: // SingleValue: cstring
     { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 9560 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 455:
-#line 1626 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 455: // SingleValue: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
-#line 9566 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 456:
-#line 1628 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 456: // SingleValue: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
-#line 9572 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 457:
-#line 1630 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 457: // SingleValue: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
-#line 9578 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 458:
-#line 1632 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 458: // SingleValue: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
-#line 9584 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 497:
-#line 1717 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 497: // typereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9590 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 498:
-#line 1721 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 498: // identifier: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9596 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 499:
-#line 1725 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 499: // valuereference: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9602 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 500:
-#line 1729 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 500: // modulereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9608 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 501:
-#line 1733 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 501: // objectclassreference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9614 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 502:
-#line 1736 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 502: // word: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9620 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
 
-#line 9624 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+
             default:
               break;
             }
@@ -9638,7 +9962,6 @@ namespace yy {
       YY_SYMBOL_PRINT ("-> $$ =", yylhs);
       yypop_ (yylen);
       yylen = 0;
-      YY_STACK_PRINT ();
 
       // Shift the result of the reduction.
       yypush_ (YY_NULLPTR, YY_MOVE (yylhs));
@@ -9654,7 +9977,9 @@ namespace yy {
     if (!yyerrstatus_)
       {
         ++yynerrs_;
-        error (yyla.location, yysyntax_error_ (yystack_[0].state, yyla));
+        context yyctx (*this, yyla);
+        std::string msg = yysyntax_error_ (yyctx);
+        error (yyla.location, YY_MOVE (msg));
       }
 
 
@@ -9665,7 +9990,7 @@ namespace yy {
            error, discard it.  */
 
         // Return failure if at end of input.
-        if (yyla.type_get () == yyeof_)
+        if (yyla.kind () == symbol_kind::S_YYEOF)
           YYABORT;
         else if (!yyla.empty ())
           {
@@ -9691,6 +10016,7 @@ namespace yy {
        this YYERROR.  */
     yypop_ (yylen);
     yylen = 0;
+    YY_STACK_PRINT ();
     goto yyerrlab1;
 
 
@@ -9699,37 +10025,39 @@ namespace yy {
   `-------------------------------------------------------------*/
   yyerrlab1:
     yyerrstatus_ = 3;   // Each real token shifted decrements this.
-    {
-      stack_symbol_type error_token;
-      for (;;)
-        {
-          yyn = yypact_[yystack_[0].state];
-          if (!yy_pact_value_is_default_ (yyn))
-            {
-              yyn += yyterror_;
-              if (0 <= yyn && yyn <= yylast_ && yycheck_[yyn] == yyterror_)
-                {
-                  yyn = yytable_[yyn];
-                  if (0 < yyn)
-                    break;
-                }
-            }
+    // Pop stack until we find a state that shifts the error token.
+    for (;;)
+      {
+        yyn = yypact_[+yystack_[0].state];
+        if (!yy_pact_value_is_default_ (yyn))
+          {
+            yyn += symbol_kind::S_YYerror;
+            if (0 <= yyn && yyn <= yylast_
+                && yycheck_[yyn] == symbol_kind::S_YYerror)
+              {
+                yyn = yytable_[yyn];
+                if (0 < yyn)
+                  break;
+              }
+          }
 
-          // Pop the current state because it cannot handle the error token.
-          if (yystack_.size () == 1)
-            YYABORT;
+        // Pop the current state because it cannot handle the error token.
+        if (yystack_.size () == 1)
+          YYABORT;
 
-          yyerror_range[1].location = yystack_[0].location;
-          yy_destroy_ ("Error: popping", yystack_[0]);
-          yypop_ ();
-          YY_STACK_PRINT ();
-        }
+        yyerror_range[1].location = yystack_[0].location;
+        yy_destroy_ ("Error: popping", yystack_[0]);
+        yypop_ ();
+        YY_STACK_PRINT ();
+      }
+    {
+      stack_symbol_type error_token;
 
       yyerror_range[2].location = yyla.location;
       YYLLOC_DEFAULT (error_token.location, yyerror_range, 2);
 
       // Shift the error token.
-      error_token.state = yyn;
+      error_token.state = state_type (yyn);
       yypush_ ("Shifting", YY_MOVE (error_token));
     }
     goto yynewstate;
@@ -9761,6 +10089,7 @@ namespace yy {
     /* Do not reclaim the symbols of the rule whose action triggered
        this YYABORT or YYACCEPT.  */
     yypop_ (yylen);
+    YY_STACK_PRINT ();
     while (1 < yystack_.size ())
       {
         yy_destroy_ ("Cleanup: popping", yystack_[0]);
@@ -9794,96 +10123,172 @@ namespace yy {
     error (yyexc.location, yyexc.what ());
   }
 
-  // Generate an error message.
+  /* Return YYSTR after stripping away unnecessary quotes and
+     backslashes, so that it's suitable for yyerror.  The heuristic is
+     that double-quoting is unnecessary unless the string contains an
+     apostrophe, a comma, or backslash (other than backslash-backslash).
+     YYSTR is taken from yytname.  */
   std::string
-  asn1_parser::yysyntax_error_ (state_type yystate, const symbol_type& yyla) const
+  asn1_parser::yytnamerr_ (const char *yystr)
   {
-    // Number of reported tokens (one for the "unexpected", one per
-    // "expected").
-    size_t yycount = 0;
-    // Its maximum.
-    enum { YYERROR_VERBOSE_ARGS_MAXIMUM = 5 };
-    // Arguments of yyformat.
-    char const *yyarg[YYERROR_VERBOSE_ARGS_MAXIMUM];
-
-    /* There are many possibilities here to consider:
-       - If this state is a consistent state with a default action, then
-         the only way this function was invoked is if the default action
-         is an error action.  In that case, don't check for expected
-         tokens because there are none.
-       - The only way there can be no lookahead present (in yyla) is
-         if this state is a consistent state with a default action.
-         Thus, detecting the absence of a lookahead is sufficient to
-         determine that there is no unexpected or expected token to
-         report.  In that case, just report a simple "syntax error".
-       - Don't assume there isn't a lookahead just because this state is
-         a consistent state with a default action.  There might have
-         been a previous inconsistent state, consistent state with a
-         non-default action, or user semantic action that manipulated
-         yyla.  (However, yyla is currently not documented for users.)
-       - Of course, the expected token list depends on states to have
-         correct lookahead information, and it depends on the parser not
-         to perform extra reductions after fetching a lookahead from the
-         scanner and before detecting a syntax error.  Thus, state
-         merging (from LALR or IELR) and default reductions corrupt the
-         expected token list.  However, the list is correct for
-         canonical LR with one exception: it will still contain any
-         token that will not be accepted due to an error action in a
-         later state.
-    */
-    if (!yyla.empty ())
-      {
-        int yytoken = yyla.type_get ();
-        yyarg[yycount++] = yytname_[yytoken];
-        int yyn = yypact_[yystate];
-        if (!yy_pact_value_is_default_ (yyn))
-          {
-            /* Start YYX at -YYN if negative to avoid negative indexes in
-               YYCHECK.  In other words, skip the first -YYN actions for
-               this state because they are default actions.  */
-            int yyxbegin = yyn < 0 ? -yyn : 0;
-            // Stay within bounds of both yycheck and yytname.
-            int yychecklim = yylast_ - yyn + 1;
-            int yyxend = yychecklim < yyntokens_ ? yychecklim : yyntokens_;
-            for (int yyx = yyxbegin; yyx < yyxend; ++yyx)
-              if (yycheck_[yyx + yyn] == yyx && yyx != yyterror_
-                  && !yy_table_value_is_error_ (yytable_[yyx + yyn]))
-                {
-                  if (yycount == YYERROR_VERBOSE_ARGS_MAXIMUM)
-                    {
-                      yycount = 1;
-                      break;
-                    }
-                  else
-                    yyarg[yycount++] = yytname_[yyx];
-                }
-          }
-      }
-
-    char const* yyformat = YY_NULLPTR;
-    switch (yycount)
+    if (*yystr == '"')
       {
-#define YYCASE_(N, S)                         \
-        case N:                               \
-          yyformat = S;                       \
-        break
-      default: // Avoid compiler warnings.
-        YYCASE_ (0, YY_("syntax error"));
-        YYCASE_ (1, YY_("syntax error, unexpected %s"));
-        YYCASE_ (2, YY_("syntax error, unexpected %s, expecting %s"));
-        YYCASE_ (3, YY_("syntax error, unexpected %s, expecting %s or %s"));
-        YYCASE_ (4, YY_("syntax error, unexpected %s, expecting %s or %s or %s"));
-        YYCASE_ (5, YY_("syntax error, unexpected %s, expecting %s or %s or %s or %s"));
-#undef YYCASE_
-      }
+        std::string yyr;
+        char const *yyp = yystr;
 
-    std::string yyres;
+        for (;;)
+          switch (*++yyp)
+            {
+            case '\'':
+            case ',':
+              goto do_not_strip_quotes;
+
+            case '\\':
+              if (*++yyp != '\\')
+                goto do_not_strip_quotes;
+              else
+                goto append;
+
+            append:
+            default:
+              yyr += *yyp;
+              break;
+
+            case '"':
+              return yyr;
+            }
+      do_not_strip_quotes: ;
+      }
+
+    return yystr;
+  }
+
+  std::string
+  asn1_parser::symbol_name (symbol_kind_type yysymbol)
+  {
+    return yytnamerr_ (yytname_[yysymbol]);
+  }
+
+
+
+  // asn1_parser::context.
+  asn1_parser::context::context (const asn1_parser& yyparser, const symbol_type& yyla)
+    : yyparser_ (yyparser)
+    , yyla_ (yyla)
+  {}
+
+  int
+  asn1_parser::context::expected_tokens (symbol_kind_type yyarg[], int yyargn) const
+  {
+    // Actual number of expected tokens
+    int yycount = 0;
+
+    const int yyn = yypact_[+yyparser_.yystack_[0].state];
+    if (!yy_pact_value_is_default_ (yyn))
+      {
+        /* Start YYX at -YYN if negative to avoid negative indexes in
+           YYCHECK.  In other words, skip the first -YYN actions for
+           this state because they are default actions.  */
+        const int yyxbegin = yyn < 0 ? -yyn : 0;
+        // Stay within bounds of both yycheck and yytname.
+        const int yychecklim = yylast_ - yyn + 1;
+        const int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
+        for (int yyx = yyxbegin; yyx < yyxend; ++yyx)
+          if (yycheck_[yyx + yyn] == yyx && yyx != symbol_kind::S_YYerror
+              && !yy_table_value_is_error_ (yytable_[yyx + yyn]))
+            {
+              if (!yyarg)
+                ++yycount;
+              else if (yycount == yyargn)
+                return 0;
+              else
+                yyarg[yycount++] = YY_CAST (symbol_kind_type, yyx);
+            }
+      }
+
+    if (yyarg && yycount == 0 && 0 < yyargn)
+      yyarg[0] = symbol_kind::S_YYEMPTY;
+    return yycount;
+  }
+
+
+
+
+
+
+  int
+  asn1_parser::yy_syntax_error_arguments_ (const context& yyctx,
+                                                 symbol_kind_type yyarg[], int yyargn) const
+  {
+    /* There are many possibilities here to consider:
+       - If this state is a consistent state with a default action, then
+         the only way this function was invoked is if the default action
+         is an error action.  In that case, don't check for expected
+         tokens because there are none.
+       - The only way there can be no lookahead present (in yyla) is
+         if this state is a consistent state with a default action.
+         Thus, detecting the absence of a lookahead is sufficient to
+         determine that there is no unexpected or expected token to
+         report.  In that case, just report a simple "syntax error".
+       - Don't assume there isn't a lookahead just because this state is
+         a consistent state with a default action.  There might have
+         been a previous inconsistent state, consistent state with a
+         non-default action, or user semantic action that manipulated
+         yyla.  (However, yyla is currently not documented for users.)
+       - Of course, the expected token list depends on states to have
+         correct lookahead information, and it depends on the parser not
+         to perform extra reductions after fetching a lookahead from the
+         scanner and before detecting a syntax error.  Thus, state merging
+         (from LALR or IELR) and default reductions corrupt the expected
+         token list.  However, the list is correct for canonical LR with
+         one exception: it will still contain any token that will not be
+         accepted due to an error action in a later state.
+    */
+
+    if (!yyctx.lookahead ().empty ())
+      {
+        if (yyarg)
+          yyarg[0] = yyctx.token ();
+        int yyn = yyctx.expected_tokens (yyarg ? yyarg + 1 : yyarg, yyargn - 1);
+        return yyn + 1;
+      }
+    return 0;
+  }
+
+  // Generate an error message.
+  std::string
+  asn1_parser::yysyntax_error_ (const context& yyctx) const
+  {
+    // Its maximum.
+    enum { YYARGS_MAX = 5 };
+    // Arguments of yyformat.
+    symbol_kind_type yyarg[YYARGS_MAX];
+    int yycount = yy_syntax_error_arguments_ (yyctx, yyarg, YYARGS_MAX);
+
+    char const* yyformat = YY_NULLPTR;
+    switch (yycount)
+      {
+#define YYCASE_(N, S)                         \
+        case N:                               \
+          yyformat = S;                       \
+        break
+      default: // Avoid compiler warnings.
+        YYCASE_ (0, YY_("syntax error"));
+        YYCASE_ (1, YY_("syntax error, unexpected %s"));
+        YYCASE_ (2, YY_("syntax error, unexpected %s, expecting %s"));
+        YYCASE_ (3, YY_("syntax error, unexpected %s, expecting %s or %s"));
+        YYCASE_ (4, YY_("syntax error, unexpected %s, expecting %s or %s or %s"));
+        YYCASE_ (5, YY_("syntax error, unexpected %s, expecting %s or %s or %s or %s"));
+#undef YYCASE_
+      }
+
+    std::string yyres;
     // Argument number.
-    size_t yyi = 0;
+    std::ptrdiff_t yyi = 0;
     for (char const* yyp = yyformat; *yyp; ++yyp)
       if (yyp[0] == '%' && yyp[1] == 's' && yyi < yycount)
         {
-          yyres += yytnamerr_ (yyarg[yyi++]);
+          yyres += symbol_name (yyarg[yyi++]);
           ++yyp;
         }
       else
@@ -9989,7 +10394,7 @@ namespace yy {
     -663,  3943,  -663,  -663,   509,  3943
   };
 
-  const unsigned short
+  const short
   asn1_parser::yydefact_[] =
   {
        0,   500,     0,     2,     0,   147,     1,     3,   158,     0,
@@ -10113,7 +10518,7 @@ namespace yy {
   const short
   asn1_parser::yydefgoto_[] =
   {
-      -1,     2,     3,   815,   396,   223,   144,    77,   225,   226,
+       0,     2,     3,   815,   396,   223,   144,    77,   225,   226,
      502,   503,   373,   416,   504,   505,   600,   655,   506,   702,
      507,   508,   699,   509,   652,   510,   660,   662,   858,   859,
      860,   861,   862,   863,   145,   146,   693,   694,   695,   805,
@@ -11158,7 +11563,7 @@ namespace yy {
       -1,    -1,   145
   };
 
-  const unsigned short
+  const short
   asn1_parser::yystos_[] =
   {
        0,   149,   154,   155,   228,   375,     0,   154,    51,   124,
@@ -11251,7 +11656,7 @@ namespace yy {
      186,   137,   125,   129,   290,   137
   };
 
-  const unsigned short
+  const short
   asn1_parser::yyr1_[] =
   {
        0,   153,   154,   154,   155,   156,   157,   157,   157,   158,
@@ -11314,7 +11719,7 @@ namespace yy {
      377,   377,   377,   377,   377,   377,   377,   377,   377
   };
 
-  const unsigned char
+  const signed char
   asn1_parser::yyr2_[] =
   {
        0,     2,     1,     2,    10,     3,     1,     1,     1,     3,
@@ -11378,13 +11783,13 @@ namespace yy {
   };
 
 
-
+#if YYDEBUG || 1
   // YYTNAME[SYMBOL-NUM] -- String name of the symbol SYMBOL-NUM.
-  // First, the terminals, then, starting at \a yyntokens_, nonterminals.
+  // First, the terminals, then, starting at \a YYNTOKENS, nonterminals.
   const char*
   const asn1_parser::yytname_[] =
   {
-  "END_OF_FILE", "error", "$undefined", "comment", "number",
+  "END_OF_FILE", "error", "\"invalid token\"", "comment", "number",
   "negativenumber", "realnumber", "bstring", "xmlbstring", "hstring",
   "xmlhstring", "cstring", "xmlcstring", "simplestring", "xmltstring",
   "psname", "encodingreference", "integerUnicodeLabel",
@@ -11410,7 +11815,7 @@ namespace yy {
   "UniversalString", "UTCTime", "UTF8String", "VideotexString",
   "VisibleString", "WITH", "\"::=\"", "\"...\"", "\"..\"", "\"{\"",
   "\"}\"", "\"(\"", "\")\"", "\"[\"", "\"]\"", "\"<\"", "\">\"", "\"!\"",
-  "\"\\\"\"", "\"&\"", "\"'\"", "\"*\"", "\",\"", "\".\"", "\"-\"",
+  "\"\\\"\"", "\"&\"", "\"\\'\"", "\"*\"", "\",\"", "\".\"", "\"-\"",
   "\"/\"", "\":\"", "\";\"", "\"=\"", "\"@\"", "\"|\"", "\"^\"", "PLUS",
   "STAR", "GENERIC_IDENTIFIER_UPPERCASE", "GENERIC_IDENTIFIER_LOWERCASE",
   "GENERIC_INTEGER", "xmlasn1typename", "$accept", "ModuleDefinitionList",
@@ -11482,9 +11887,11 @@ namespace yy {
   "ExceptionIdentification", "typereference", "identifier",
   "valuereference", "modulereference", "objectclassreference", "word", YY_NULLPTR
   };
+#endif
+
 
 #if YYDEBUG
-  const unsigned short
+  const short
   asn1_parser::yyrline_[] =
   {
        0,   327,   327,   328,   331,   346,   349,   350,   351,   354,
@@ -11547,24 +11954,22 @@ namespace yy {
     1804,  1805,  1806,  1807,  1808,  1809,  1810,  1811,  1812
   };
 
-  // Print the state stack on the debug stream.
   void
-  asn1_parser::yystack_print_ ()
+  asn1_parser::yy_stack_print_ () const
   {
     *yycdebug_ << "Stack now";
     for (stack_type::const_iterator
            i = yystack_.begin (),
            i_end = yystack_.end ();
          i != i_end; ++i)
-      *yycdebug_ << ' ' << i->state;
+      *yycdebug_ << ' ' << int (i->state);
     *yycdebug_ << '\n';
   }
 
-  // Report on the debug stream that the rule \a yyrule is going to be reduced.
   void
-  asn1_parser::yy_reduce_print_ (int yyrule)
+  asn1_parser::yy_reduce_print_ (int yyrule) const
   {
-    unsigned yylno = yyrline_[yyrule];
+    int yylno = yyrline_[yyrule];
     int yynrhs = yyr2_[yyrule];
     // Print the symbols being reduced, and their result.
     *yycdebug_ << "Reducing stack by rule " << yyrule - 1
@@ -11577,10 +11982,8 @@ namespace yy {
 #endif // YYDEBUG
 
 
-
 } // yy
-#line 11581 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:1242
-#line 1814 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:1243
+
 
 
 
@@ -11593,12445 +11996,12408 @@ namespace yy {
         context_.location.step();
         // Lexer
 
-#line 11597 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 12000 "asn_compiler.hpp"
 {
 	char yych;
 	unsigned int yyaccept = 0;
 	yych = *context_.cursor;
 	switch (yych) {
-	case 0x00:	goto yy2;
-	case 0x08:
-	case '\t':
-	case '\v':
-	case '\f':
-	case ' ':	goto yy6;
-	case '\n':	goto yy8;
-	case '\r':	goto yy10;
-	case '!':	goto yy11;
-	case '"':	goto yy13;
-	case '&':	goto yy15;
-	case '\'':	goto yy16;
-	case '(':	goto yy18;
-	case ')':	goto yy20;
-	case ',':	goto yy22;
-	case '-':	goto yy24;
-	case '.':	goto yy26;
-	case '/':	goto yy28;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy29;
-	case ':':	goto yy32;
-	case ';':	goto yy34;
-	case '<':	goto yy36;
-	case '@':	goto yy38;
-	case 'A':	goto yy40;
-	case 'B':	goto yy42;
-	case 'C':	goto yy43;
-	case 'D':	goto yy44;
-	case 'E':	goto yy45;
-	case 'F':	goto yy46;
-	case 'G':	goto yy47;
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'Q':
-	case 'X':
-	case 'Y':
-	case 'Z':	goto yy48;
-	case 'I':	goto yy50;
-	case 'M':	goto yy51;
-	case 'N':	goto yy52;
-	case 'O':	goto yy53;
-	case 'P':	goto yy54;
-	case 'R':	goto yy55;
-	case 'S':	goto yy56;
-	case 'T':	goto yy57;
-	case 'U':	goto yy58;
-	case 'V':	goto yy59;
-	case 'W':	goto yy60;
-	case '[':	goto yy61;
-	case ']':	goto yy63;
-	case '^':	goto yy65;
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy67;
-	case '{':	goto yy70;
-	case '|':	goto yy72;
-	case '}':	goto yy74;
-	default:	goto yy4;
-	}
-yy2:
+		case 0x00: goto yy1;
+		case 0x08:
+		case '\t':
+		case '\v':
+		case '\f':
+		case ' ': goto yy4;
+		case '\n': goto yy5;
+		case '\r': goto yy6;
+		case '!': goto yy7;
+		case '"': goto yy8;
+		case '&': goto yy9;
+		case '\'': goto yy10;
+		case '(': goto yy11;
+		case ')': goto yy12;
+		case ',': goto yy13;
+		case '-': goto yy14;
+		case '.': goto yy16;
+		case '/': goto yy18;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy19;
+		case ':': goto yy21;
+		case ';': goto yy23;
+		case '<': goto yy24;
+		case '@': goto yy25;
+		case 'A': goto yy26;
+		case 'B': goto yy28;
+		case 'C': goto yy29;
+		case 'D': goto yy30;
+		case 'E': goto yy31;
+		case 'F': goto yy32;
+		case 'G': goto yy33;
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'Q':
+		case 'X':
+		case 'Y':
+		case 'Z': goto yy34;
+		case 'I': goto yy36;
+		case 'M': goto yy37;
+		case 'N': goto yy38;
+		case 'O': goto yy39;
+		case 'P': goto yy40;
+		case 'R': goto yy41;
+		case 'S': goto yy42;
+		case 'T': goto yy43;
+		case 'U': goto yy44;
+		case 'V': goto yy45;
+		case 'W': goto yy46;
+		case '[': goto yy47;
+		case ']': goto yy48;
+		case '^': goto yy49;
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy50;
+		case '{': goto yy52;
+		case '|': goto yy53;
+		case '}': goto yy54;
+		default: goto yy2;
+	}
+yy1:
 	++context_.cursor;
-#line 11716 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1948 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
-#line 11699 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy4:
+#line 12102 "asn_compiler.hpp"
+yy2:
 	++context_.cursor;
-yy5:
-#line 11742 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy3:
+#line 1974 "asn_compiler.yacc"
 	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
-#line 11705 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy6:
+#line 12108 "asn_compiler.hpp"
+yy4:
 	++context_.cursor;
-#line 11720 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1952 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
-#line 11710 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy8:
+#line 12113 "asn_compiler.hpp"
+yy5:
 	++context_.cursor;
-#line 11719 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1951 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-#line 11715 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy10:
+#line 12118 "asn_compiler.hpp"
+yy6:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '\n':	goto yy8;
-	default:	goto yy5;
+		case '\n': goto yy5;
+		default: goto yy3;
 	}
-yy11:
+yy7:
 	++context_.cursor;
-#line 11738 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1970 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCLAMATION_MARK (context_.location); }
-#line 11726 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy13:
-	yych = *++context_.cursor;
-	switch (yych) {
-	case '"':	goto yy76;
-	case '\'':	goto yy78;
-	case '\\':	goto yy79;
-	default:	goto yy13;
-	}
-yy15:
+#line 12129 "asn_compiler.hpp"
+yy8:
+	yyaccept = 0;
+	yych = *(YYMARKER = ++context_.cursor);
+	if (yych <= 0x00) goto yy3;
+	goto yy56;
+yy9:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':	goto yy81;
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy84;
-	default:	goto yy5;
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z': goto yy62;
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy64;
+		default: goto yy3;
 	}
-yy16:
-	yych = *++context_.cursor;
+yy10:
+	yyaccept = 0;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '"':	goto yy76;
-	case '\'':	goto yy87;
-	case '0':
-	case '1':	goto yy16;
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':	goto yy88;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case 0x00: goto yy3;
+		case '\'': goto yy66;
+		case '0':
+		case '1': goto yy67;
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f': goto yy68;
+		default: goto yy56;
 	}
-yy18:
+yy11:
 	++context_.cursor;
-#line 11728 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1960 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-#line 11826 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy20:
+#line 12226 "asn_compiler.hpp"
+yy12:
 	++context_.cursor;
-#line 11729 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1961 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-#line 11831 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy22:
+#line 12231 "asn_compiler.hpp"
+yy13:
 	++context_.cursor;
-#line 11734 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1966 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-#line 11836 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy24:
+#line 12236 "asn_compiler.hpp"
+yy14:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '-':	goto yy90;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy93;
-	default:	goto yy25;
+		case '-': goto yy69;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy71;
+		default: goto yy15;
 	}
-yy25:
-#line 11735 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy15:
+#line 1967 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
-#line 11856 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy26:
+#line 12256 "asn_compiler.hpp"
+yy16:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '.':	goto yy96;
-	default:	goto yy27;
+		case '.': goto yy73;
+		default: goto yy17;
 	}
-yy27:
-#line 11736 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy17:
+#line 1968 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
-#line 11866 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy28:
-	yych = *++context_.cursor;
+#line 12266 "asn_compiler.hpp"
+yy18:
+	yyaccept = 0;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '*':	goto yy98;
-	default:	goto yy5;
+		case '*': goto yy75;
+		default: goto yy3;
 	}
-yy29:
-	yyaccept = 0;
+yy19:
+	yyaccept = 1;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '.':	goto yy100;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy29;
-	default:	goto yy31;
+		case '.': goto yy76;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy19;
+		default: goto yy20;
 	}
-yy31:
-#line 11702 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy20:
+#line 1934 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 11893 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy32:
-	yyaccept = 1;
+#line 12294 "asn_compiler.hpp"
+yy21:
+	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case ':':	goto yy102;
-	default:	goto yy33;
+		case ':': goto yy77;
+		default: goto yy22;
 	}
-yy33:
-#line 11732 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy22:
+#line 1964 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
-#line 11904 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy34:
+#line 12305 "asn_compiler.hpp"
+yy23:
 	++context_.cursor;
-#line 11733 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1965 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-#line 11909 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy36:
+#line 12310 "asn_compiler.hpp"
+yy24:
 	++context_.cursor;
-#line 11739 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1971 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-#line 11914 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy38:
+#line 12315 "asn_compiler.hpp"
+yy25:
 	++context_.cursor;
-#line 11741 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1973 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-#line 11919 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy40:
-	yyaccept = 2;
+#line 12320 "asn_compiler.hpp"
+yy26:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy104;
-	case 'L':	goto yy105;
-	case 'N':	goto yy106;
-	case 'P':	goto yy107;
-	case 'U':	goto yy108;
-	default:	goto yy49;
+		case 'B': goto yy79;
+		case 'L': goto yy80;
+		case 'N': goto yy81;
+		case 'P': goto yy82;
+		case 'U': goto yy83;
+		default: goto yy35;
 	}
-yy41:
-#line 11710 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy27:
+#line 1942 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 11934 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy42:
-	yyaccept = 2;
+#line 12335 "asn_compiler.hpp"
+yy28:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy109;
-	case 'I':	goto yy110;
-	case 'M':	goto yy111;
-	case 'O':	goto yy112;
-	case 'Y':	goto yy113;
-	default:	goto yy49;
+		case 'E': goto yy84;
+		case 'I': goto yy85;
+		case 'M': goto yy86;
+		case 'O': goto yy87;
+		case 'Y': goto yy88;
+		default: goto yy35;
 	}
-yy43:
-	yyaccept = 2;
+yy29:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'H':	goto yy115;
-	case 'L':	goto yy116;
-	case 'O':	goto yy117;
-	default:	goto yy49;
+		case 'H': goto yy90;
+		case 'L': goto yy91;
+		case 'O': goto yy92;
+		default: goto yy35;
 	}
-yy44:
-	yyaccept = 2;
+yy30:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy118;
-	case 'E':	goto yy119;
-	case 'U':	goto yy120;
-	default:	goto yy49;
+		case 'A': goto yy93;
+		case 'E': goto yy94;
+		case 'U': goto yy95;
+		default: goto yy35;
 	}
-yy45:
-	yyaccept = 2;
+yy31:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy121;
-	case 'N':	goto yy122;
-	case 'X':	goto yy123;
-	default:	goto yy49;
+		case 'M': goto yy96;
+		case 'N': goto yy97;
+		case 'X': goto yy98;
+		default: goto yy35;
 	}
-yy46:
-	yyaccept = 2;
+yy32:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy124;
-	case 'R':	goto yy125;
-	default:	goto yy49;
+		case 'A': goto yy99;
+		case 'R': goto yy100;
+		default: goto yy35;
 	}
-yy47:
-	yyaccept = 2;
+yy33:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy126;
-	case 'r':	goto yy127;
-	default:	goto yy49;
+		case 'e': goto yy101;
+		case 'r': goto yy102;
+		default: goto yy35;
 	}
-yy48:
-	yyaccept = 2;
+yy34:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
-yy49:
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy41;
+yy35:
+	switch (yych) {
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy27;
 	}
-yy50:
-	yyaccept = 2;
+yy36:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy128;
-	case 'D':	goto yy129;
-	case 'M':	goto yy130;
-	case 'N':	goto yy131;
-	case 'S':	goto yy132;
-	default:	goto yy49;
+		case 'A': goto yy103;
+		case 'D': goto yy104;
+		case 'M': goto yy105;
+		case 'N': goto yy106;
+		case 'S': goto yy107;
+		default: goto yy35;
 	}
-yy51:
-	yyaccept = 2;
+yy37:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy133;
-	case 'I':	goto yy134;
-	default:	goto yy49;
+		case 'A': goto yy108;
+		case 'I': goto yy109;
+		default: goto yy35;
 	}
-yy52:
-	yyaccept = 2;
+yy38:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy135;
-	case 'U':	goto yy136;
-	case 'u':	goto yy137;
-	default:	goto yy49;
+		case 'O': goto yy110;
+		case 'U': goto yy111;
+		case 'u': goto yy112;
+		default: goto yy35;
 	}
-yy53:
-	yyaccept = 2;
+yy39:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy138;
-	case 'C':	goto yy139;
-	case 'F':	goto yy140;
-	case 'I':	goto yy142;
-	case 'P':	goto yy143;
-	case 'b':	goto yy144;
-	default:	goto yy49;
+		case 'B': goto yy113;
+		case 'C': goto yy114;
+		case 'F': goto yy115;
+		case 'I': goto yy117;
+		case 'P': goto yy118;
+		case 'b': goto yy119;
+		default: goto yy35;
 	}
-yy54:
-	yyaccept = 2;
+yy40:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy145;
-	case 'D':	goto yy146;
-	case 'L':	goto yy147;
-	case 'R':	goto yy148;
-	case 'r':	goto yy149;
-	default:	goto yy49;
+		case 'A': goto yy120;
+		case 'D': goto yy121;
+		case 'L': goto yy122;
+		case 'R': goto yy123;
+		case 'r': goto yy124;
+		default: goto yy35;
 	}
-yy55:
-	yyaccept = 2;
+yy41:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy150;
-	default:	goto yy49;
+		case 'E': goto yy125;
+		default: goto yy35;
 	}
-yy56:
-	yyaccept = 2;
+yy42:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy151;
-	case 'I':	goto yy152;
-	case 'T':	goto yy153;
-	case 'Y':	goto yy154;
-	default:	goto yy49;
+		case 'E': goto yy126;
+		case 'I': goto yy127;
+		case 'T': goto yy128;
+		case 'Y': goto yy129;
+		default: goto yy35;
 	}
-yy57:
-	yyaccept = 2;
+yy43:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '6':	goto yy155;
-	case 'A':	goto yy156;
-	case 'I':	goto yy157;
-	case 'R':	goto yy158;
-	case 'Y':	goto yy159;
-	case 'e':	goto yy160;
-	default:	goto yy49;
+		case '6': goto yy130;
+		case 'A': goto yy131;
+		case 'I': goto yy132;
+		case 'R': goto yy133;
+		case 'Y': goto yy134;
+		case 'e': goto yy135;
+		default: goto yy35;
 	}
-yy58:
-	yyaccept = 2;
+yy44:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy161;
-	case 'T':	goto yy162;
-	case 'n':	goto yy163;
-	default:	goto yy49;
+		case 'N': goto yy136;
+		case 'T': goto yy137;
+		case 'n': goto yy138;
+		default: goto yy35;
 	}
-yy59:
-	yyaccept = 2;
+yy45:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy164;
-	default:	goto yy49;
+		case 'i': goto yy139;
+		default: goto yy35;
 	}
-yy60:
-	yyaccept = 2;
+yy46:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy165;
-	default:	goto yy49;
+		case 'I': goto yy140;
+		default: goto yy35;
 	}
-yy61:
+yy47:
 	++context_.cursor;
-#line 11730 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1962 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-#line 12167 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy63:
+#line 12568 "asn_compiler.hpp"
+yy48:
 	++context_.cursor;
-#line 11731 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1963 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-#line 12172 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy65:
+#line 12573 "asn_compiler.hpp"
+yy49:
 	++context_.cursor;
-#line 11740 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1972 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-#line 12177 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy67:
-	yyaccept = 3;
+#line 12578 "asn_compiler.hpp"
+yy50:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy166;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy67;
-	default:	goto yy69;
+		case '-': goto yy141;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy50;
+		default: goto yy51;
 	}
-yy69:
-#line 11711 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy51:
+#line 1943 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12251 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy70:
+#line 12652 "asn_compiler.hpp"
+yy52:
 	++context_.cursor;
-#line 11726 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1958 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-#line 12256 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy72:
+#line 12657 "asn_compiler.hpp"
+yy53:
 	++context_.cursor;
-#line 11737 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1969 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-#line 12261 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy74:
+#line 12662 "asn_compiler.hpp"
+yy54:
 	++context_.cursor;
-#line 11727 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1959 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-#line 12266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 12667 "asn_compiler.hpp"
+yy55:
+	yych = *++context_.cursor;
+yy56:
+	switch (yych) {
+		case 0x00: goto yy57;
+		case '"': goto yy58;
+		case '\'': goto yy60;
+		case '\\': goto yy61;
+		default: goto yy55;
+	}
+yy57:
+	context_.cursor = YYMARKER;
+	switch (yyaccept) {
+		case 0: goto yy3;
+		case 1: goto yy20;
+		case 2: goto yy22;
+		case 3: goto yy27;
+		case 4: goto yy51;
+		case 5: goto yy59;
+		case 6: goto yy63;
+		case 7: goto yy65;
+		case 8: goto yy89;
+		case 9: goto yy116;
+		case 10: goto yy157;
+		case 11: goto yy159;
+		case 12: goto yy164;
+		case 13: goto yy178;
+		case 14: goto yy195;
+		case 15: goto yy197;
+		case 16: goto yy208;
+		case 17: goto yy217;
+		case 18: goto yy250;
+		case 19: goto yy263;
+		case 20: goto yy277;
+		case 21: goto yy290;
+		case 22: goto yy295;
+		case 23: goto yy300;
+		case 24: goto yy302;
+		case 25: goto yy304;
+		case 26: goto yy316;
+		case 27: goto yy322;
+		case 28: goto yy328;
+		case 29: goto yy345;
+		case 30: goto yy363;
+		case 31: goto yy382;
+		case 32: goto yy391;
+		case 33: goto yy399;
+		case 34: goto yy412;
+		case 35: goto yy434;
+		case 36: goto yy447;
+		case 37: goto yy449;
+		case 38: goto yy455;
+		case 39: goto yy467;
+		case 40: goto yy474;
+		case 41: goto yy479;
+		case 42: goto yy484;
+		case 43: goto yy493;
+		case 44: goto yy495;
+		case 45: goto yy500;
+		case 46: goto yy507;
+		case 47: goto yy511;
+		case 48: goto yy514;
+		case 49: goto yy516;
+		case 50: goto yy527;
+		case 51: goto yy543;
+		case 52: goto yy545;
+		case 53: goto yy549;
+		case 54: goto yy552;
+		case 55: goto yy559;
+		case 56: goto yy561;
+		case 57: goto yy563;
+		case 58: goto yy571;
+		case 59: goto yy577;
+		case 60: goto yy579;
+		case 61: goto yy592;
+		case 62: goto yy594;
+		case 63: goto yy596;
+		case 64: goto yy598;
+		case 65: goto yy602;
+		case 66: goto yy611;
+		case 67: goto yy624;
+		case 68: goto yy629;
+		case 69: goto yy637;
+		case 70: goto yy640;
+		case 71: goto yy644;
+		case 72: goto yy650;
+		case 73: goto yy665;
+		case 74: goto yy671;
+		case 75: goto yy673;
+		case 76: goto yy675;
+		case 77: goto yy692;
+		case 78: goto yy705;
+		case 79: goto yy707;
+		case 80: goto yy709;
+		case 81: goto yy712;
+		case 82: goto yy718;
+		case 83: goto yy727;
+		case 84: goto yy729;
+		case 85: goto yy732;
+		case 86: goto yy735;
+		case 87: goto yy738;
+		case 88: goto yy743;
+		case 89: goto yy747;
+		case 90: goto yy752;
+		case 91: goto yy759;
+		case 92: goto yy761;
+		case 93: goto yy764;
+		case 94: goto yy767;
+		case 95: goto yy770;
+		case 96: goto yy772;
+		case 97: goto yy774;
+		case 98: goto yy776;
+		default: goto yy778;
+	}
+yy58:
+	yyaccept = 5;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '"': goto yy55;
+		default: goto yy59;
+	}
+yy59:
+#line 1937 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
+#line 12792 "asn_compiler.hpp"
+yy60:
+	++context_.cursor;
+	goto yy59;
+yy61:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 0x00: goto yy57;
+		case '"': goto yy142;
+		case '\'': goto yy143;
+		case '\\': goto yy61;
+		default: goto yy55;
+	}
+yy62:
+	yyaccept = 6;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy144;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy62;
+		default: goto yy63;
+	}
+yy63:
+#line 1944 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
+#line 12878 "asn_compiler.hpp"
+yy64:
+	yyaccept = 7;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy145;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy64;
+		default: goto yy65;
+	}
+yy65:
+#line 1945 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
+#line 12952 "asn_compiler.hpp"
+yy66:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 'B': goto yy146;
+		case 'H': goto yy147;
+		default: goto yy59;
+	}
+yy67:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 0x00: goto yy57;
+		case '"': goto yy58;
+		case '\'': goto yy66;
+		case '0':
+		case '1': goto yy67;
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f': goto yy68;
+		case '\\': goto yy61;
+		default: goto yy55;
+	}
+yy68:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 0x00: goto yy57;
+		case '"': goto yy58;
+		case '\'': goto yy148;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f': goto yy68;
+		case '\\': goto yy61;
+		default: goto yy55;
+	}
+yy69:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 0x00:
+		case '\n':
+		case '\r': goto yy70;
+		case '-': goto yy149;
+		default: goto yy69;
+	}
+yy70:
+#line 1928 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
+#line 13034 "asn_compiler.hpp"
+yy71:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy71;
+		default: goto yy72;
+	}
+yy72:
+#line 1935 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
+#line 13053 "asn_compiler.hpp"
+yy73:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '.': goto yy150;
+		default: goto yy74;
+	}
+yy74:
+#line 1957 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
+#line 13063 "asn_compiler.hpp"
+yy75:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 0x00: goto yy57;
+		case '*': goto yy151;
+		default: goto yy75;
+	}
 yy76:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '"':	goto yy13;
-	default:	goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy152;
+		default: goto yy57;
 	}
 yy77:
-#line 11705 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-#line 12276 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '=': goto yy154;
+		default: goto yy57;
+	}
 yy78:
-	++context_.cursor;
-	goto yy77;
-yy79:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '"':	goto yy167;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy57;
+	}
+yy79:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy155;
+		default: goto yy35;
+	}
+yy80:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'L': goto yy156;
+		default: goto yy35;
 	}
 yy81:
-	yyaccept = 4;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'Y': goto yy158;
+		default: goto yy35;
+	}
+yy82:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy169;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy81;
-	default:	goto yy83;
+		case 'P': goto yy160;
+		default: goto yy35;
 	}
 yy83:
-#line 11712 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12360 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy161;
+		default: goto yy35;
+	}
 yy84:
-	yyaccept = 5;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'G': goto yy162;
+		default: goto yy35;
+	}
+yy85:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy170;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy84;
-	default:	goto yy86;
+		case 'T': goto yy163;
+		default: goto yy35;
 	}
 yy86:
-#line 11713 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12434 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'P': goto yy165;
+		default: goto yy35;
+	}
 yy87:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy171;
-	case 'H':	goto yy173;
-	default:	goto yy77;
+		case 'O': goto yy166;
+		default: goto yy35;
 	}
 yy88:
-	yych = *++context_.cursor;
+	yyaccept = 8;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '"':	goto yy76;
-	case '\'':	goto yy175;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':	goto yy88;
-	case '\\':	goto yy79;
-	default:	goto yy13;
-	}
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy89;
+	}
+yy89:
+#line 1841 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
+#line 13296 "asn_compiler.hpp"
 yy90:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy167;
+		case 'O': goto yy168;
+		default: goto yy35;
+	}
+yy91:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '\n':
-	case '\r':	goto yy92;
-	case '-':	goto yy176;
-	default:	goto yy90;
+		case 'A': goto yy169;
+		default: goto yy35;
 	}
 yy92:
-#line 11696 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 12483 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'M': goto yy170;
+		case 'N': goto yy171;
+		default: goto yy35;
+	}
 yy93:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy172;
+		default: goto yy35;
+	}
+yy94:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy93;
-	default:	goto yy95;
+		case 'F': goto yy173;
+		default: goto yy35;
 	}
 yy95:
-#line 11703 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 12502 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'R': goto yy174;
+		default: goto yy35;
+	}
 yy96:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '.':	goto yy177;
-	default:	goto yy97;
+		case 'B': goto yy175;
+		default: goto yy35;
 	}
 yy97:
-#line 11725 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-#line 12512 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'C': goto yy176;
+		case 'D': goto yy177;
+		case 'U': goto yy179;
+		default: goto yy35;
+	}
 yy98:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'C': goto yy180;
+		case 'P': goto yy181;
+		case 'T': goto yy182;
+		default: goto yy35;
+	}
+yy99:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '*':	goto yy179;
-	default:	goto yy98;
+		case 'L': goto yy183;
+		default: goto yy35;
 	}
 yy100:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy181;
-	default:	goto yy101;
+		case 'O': goto yy184;
+		default: goto yy35;
 	}
 yy101:
-	context_.cursor = YYMARKER;
-	switch (yyaccept) {
-	case 0:
-		goto yy31;
-	case 1:
-		goto yy33;
-	case 2:
-		goto yy41;
-	case 3:
-		goto yy69;
-	case 4:
-		goto yy83;
-	case 5:
-		goto yy86;
-	case 6:
-		goto yy114;
-	case 7:
-		goto yy141;
-	case 8:
-		goto yy188;
-	case 9:
-		goto yy190;
-	case 10:
-		goto yy195;
-	case 11:
-		goto yy209;
-	case 12:
-		goto yy226;
-	case 13:
-		goto yy228;
-	case 14:
-		goto yy239;
-	case 15:
-		goto yy248;
-	case 16:
-		goto yy283;
-	case 17:
-		goto yy296;
-	case 18:
-		goto yy310;
-	case 19:
-		goto yy323;
-	case 20:
-		goto yy328;
-	case 21:
-		goto yy333;
-	case 22:
-		goto yy335;
-	case 23:
-		goto yy337;
-	case 24:
-		goto yy349;
-	case 25:
-		goto yy355;
-	case 26:
-		goto yy361;
-	case 27:
-		goto yy378;
-	case 28:
-		goto yy396;
-	case 29:
-		goto yy415;
-	case 30:
-		goto yy424;
-	case 31:
-		goto yy432;
-	case 32:
-		goto yy445;
-	case 33:
-		goto yy467;
-	case 34:
-		goto yy480;
-	case 35:
-		goto yy482;
-	case 36:
-		goto yy488;
-	case 37:
-		goto yy500;
-	case 38:
-		goto yy507;
-	case 39:
-		goto yy512;
-	case 40:
-		goto yy517;
-	case 41:
-		goto yy526;
-	case 42:
-		goto yy528;
-	case 43:
-		goto yy533;
-	case 44:
-		goto yy540;
-	case 45:
-		goto yy544;
-	case 46:
-		goto yy547;
-	case 47:
-		goto yy549;
-	case 48:
-		goto yy560;
-	case 49:
-		goto yy576;
-	case 50:
-		goto yy578;
-	case 51:
-		goto yy582;
-	case 52:
-		goto yy585;
-	case 53:
-		goto yy592;
-	case 54:
-		goto yy594;
-	case 55:
-		goto yy596;
-	case 56:
-		goto yy604;
-	case 57:
-		goto yy610;
-	case 58:
-		goto yy612;
-	case 59:
-		goto yy625;
-	case 60:
-		goto yy627;
-	case 61:
-		goto yy629;
-	case 62:
-		goto yy631;
-	case 63:
-		goto yy635;
-	case 64:
-		goto yy644;
-	case 65:
-		goto yy657;
-	case 66:
-		goto yy662;
-	case 67:
-		goto yy670;
-	case 68:
-		goto yy673;
-	case 69:
-		goto yy677;
-	case 70:
-		goto yy683;
-	case 71:
-		goto yy698;
-	case 72:
-		goto yy704;
-	case 73:
-		goto yy706;
-	case 74:
-		goto yy708;
-	case 75:
-		goto yy725;
-	case 76:
-		goto yy738;
-	case 77:
-		goto yy740;
-	case 78:
-		goto yy742;
-	case 79:
-		goto yy745;
-	case 80:
-		goto yy751;
-	case 81:
-		goto yy760;
-	case 82:
-		goto yy762;
-	case 83:
-		goto yy765;
-	case 84:
-		goto yy768;
-	case 85:
-		goto yy771;
-	case 86:
-		goto yy776;
-	case 87:
-		goto yy780;
-	case 88:
-		goto yy785;
-	case 89:
-		goto yy792;
-	case 90:
-		goto yy794;
-	case 91:
-		goto yy797;
-	case 92:
-		goto yy800;
-	case 93:
-		goto yy803;
-	case 94:
-		goto yy805;
-	case 95:
-		goto yy807;
-	case 96:
-		goto yy809;
-	default:
-		goto yy811;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'n': goto yy185;
+		default: goto yy35;
 	}
 yy102:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '=':	goto yy184;
-	default:	goto yy101;
+		case 'a': goto yy186;
+		default: goto yy35;
 	}
 yy103:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy101;
+		case '5': goto yy187;
+		default: goto yy35;
 	}
 yy104:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy186;
-	default:	goto yy49;
+		case 'E': goto yy188;
+		default: goto yy35;
 	}
 yy105:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy187;
-	default:	goto yy49;
+		case 'P': goto yy189;
+		default: goto yy35;
 	}
 yy106:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy189;
-	default:	goto yy49;
+		case 'C': goto yy190;
+		case 'S': goto yy191;
+		case 'T': goto yy192;
+		default: goto yy35;
 	}
 yy107:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy191;
-	default:	goto yy49;
+		case 'O': goto yy193;
+		default: goto yy35;
 	}
 yy108:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy192;
-	default:	goto yy49;
+		case 'X': goto yy194;
+		default: goto yy35;
 	}
 yy109:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy193;
-	default:	goto yy49;
+		case 'N': goto yy196;
+		default: goto yy35;
 	}
 yy110:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy194;
-	default:	goto yy49;
+		case 'T': goto yy198;
+		default: goto yy35;
 	}
 yy111:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy196;
-	default:	goto yy49;
+		case 'L': goto yy199;
+		default: goto yy35;
 	}
 yy112:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy197;
-	default:	goto yy49;
+		case 'm': goto yy200;
+		default: goto yy35;
 	}
 yy113:
-	yyaccept = 6;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy114;
+		case 'J': goto yy201;
+		default: goto yy35;
 	}
 yy114:
-#line 11609 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-#line 12944 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy115:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy198;
-	case 'O':	goto yy199;
-	default:	goto yy49;
+		case 'T': goto yy202;
+		default: goto yy35;
 	}
-yy116:
-	yyaccept = 2;
+yy115:
+	yyaccept = 9;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy200;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy116;
 	}
+yy116:
+#line 1889 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
+#line 13553 "asn_compiler.hpp"
 yy117:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy201;
-	case 'N':	goto yy202;
-	default:	goto yy49;
+		case 'D': goto yy203;
+		default: goto yy35;
 	}
 yy118:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy203;
-	default:	goto yy49;
+		case 'T': goto yy204;
+		default: goto yy35;
 	}
 yy119:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy204;
-	default:	goto yy49;
+		case 'j': goto yy205;
+		default: goto yy35;
 	}
 yy120:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy205;
-	default:	goto yy49;
+		case 'T': goto yy206;
+		default: goto yy35;
 	}
 yy121:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy206;
-	default:	goto yy49;
+		case 'V': goto yy207;
+		default: goto yy35;
 	}
 yy122:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy207;
-	case 'D':	goto yy208;
-	case 'U':	goto yy210;
-	default:	goto yy49;
+		case 'U': goto yy209;
+		default: goto yy35;
 	}
 yy123:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy211;
-	case 'P':	goto yy212;
-	case 'T':	goto yy213;
-	default:	goto yy49;
+		case 'E': goto yy210;
+		case 'I': goto yy211;
+		default: goto yy35;
 	}
 yy124:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy214;
-	default:	goto yy49;
+		case 'i': goto yy212;
+		default: goto yy35;
 	}
 yy125:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy215;
-	default:	goto yy49;
+		case 'A': goto yy213;
+		case 'L': goto yy214;
+		default: goto yy35;
 	}
 yy126:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy216;
-	default:	goto yy49;
+		case 'Q': goto yy215;
+		case 'T': goto yy216;
+		default: goto yy35;
 	}
 yy127:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy217;
-	default:	goto yy49;
+		case 'Z': goto yy218;
+		default: goto yy35;
 	}
 yy128:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '5':	goto yy218;
-	default:	goto yy49;
+		case 'R': goto yy219;
+		default: goto yy35;
 	}
 yy129:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy219;
-	default:	goto yy49;
+		case 'N': goto yy220;
+		default: goto yy35;
 	}
 yy130:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy220;
-	default:	goto yy49;
+		case '1': goto yy221;
+		default: goto yy35;
 	}
 yy131:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy221;
-	case 'S':	goto yy222;
-	case 'T':	goto yy223;
-	default:	goto yy49;
+		case 'G': goto yy222;
+		default: goto yy35;
 	}
 yy132:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy224;
-	default:	goto yy49;
+		case 'M': goto yy223;
+		default: goto yy35;
 	}
 yy133:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'X':	goto yy225;
-	default:	goto yy49;
+		case 'U': goto yy224;
+		default: goto yy35;
 	}
 yy134:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy227;
-	default:	goto yy49;
+		case 'P': goto yy225;
+		default: goto yy35;
 	}
 yy135:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy229;
-	default:	goto yy49;
+		case 'l': goto yy226;
+		default: goto yy35;
 	}
 yy136:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy230;
-	default:	goto yy49;
+		case 'I': goto yy227;
+		default: goto yy35;
 	}
 yy137:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'm':	goto yy231;
-	default:	goto yy49;
+		case 'C': goto yy228;
+		case 'F': goto yy229;
+		default: goto yy35;
 	}
 yy138:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'J':	goto yy232;
-	default:	goto yy49;
+		case 'i': goto yy230;
+		default: goto yy35;
 	}
 yy139:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy233;
-	default:	goto yy49;
+		case 'd': goto yy231;
+		case 's': goto yy232;
+		default: goto yy35;
 	}
 yy140:
-	yyaccept = 7;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy141;
+		case 'T': goto yy233;
+		default: goto yy35;
 	}
 yy141:
-#line 11657 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-#line 13201 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy50;
+		default: goto yy57;
+	}
 yy142:
-	yyaccept = 2;
+	yyaccept = 5;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy234;
-	default:	goto yy49;
+		case 0x00: goto yy59;
+		case '"': goto yy142;
+		case '\'': goto yy60;
+		case '\\': goto yy61;
+		default: goto yy55;
 	}
 yy143:
-	yyaccept = 2;
+	yyaccept = 5;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy235;
-	default:	goto yy49;
+		case 0x00: goto yy59;
+		case '"': goto yy58;
+		case '\'': goto yy60;
+		case '\\': goto yy61;
+		default: goto yy55;
 	}
 yy144:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'j':	goto yy236;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy62;
+		default: goto yy57;
 	}
 yy145:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'T':	goto yy237;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy64;
+		default: goto yy57;
 	}
 yy146:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'V':	goto yy238;
-	default:	goto yy49;
-	}
+	++context_.cursor;
+#line 1939 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
+#line 13955 "asn_compiler.hpp"
 yy147:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'U':	goto yy240;
-	default:	goto yy49;
-	}
+	++context_.cursor;
+#line 1941 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
+#line 13960 "asn_compiler.hpp"
 yy148:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'E':	goto yy241;
-	case 'I':	goto yy242;
-	default:	goto yy49;
+		case 'H': goto yy147;
+		default: goto yy59;
 	}
 yy149:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'i':	goto yy243;
-	default:	goto yy49;
+		case 0x00:
+		case '\n':
+		case '\r': goto yy70;
+		case '-': goto yy234;
+		default: goto yy69;
 	}
 yy150:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'A':	goto yy244;
-	case 'L':	goto yy245;
-	default:	goto yy49;
-	}
+	++context_.cursor;
+#line 1956 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
+#line 13980 "asn_compiler.hpp"
 yy151:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'Q':	goto yy246;
-	case 'T':	goto yy247;
-	default:	goto yy49;
+		case 0x00: goto yy57;
+		case '*': goto yy151;
+		case '/': goto yy235;
+		default: goto yy75;
 	}
 yy152:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'Z':	goto yy249;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy152;
+		default: goto yy153;
 	}
 yy153:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'R':	goto yy250;
-	default:	goto yy49;
-	}
+#line 1933 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
+#line 14007 "asn_compiler.hpp"
 yy154:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'N':	goto yy251;
-	default:	goto yy49;
-	}
+	++context_.cursor;
+#line 1955 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
+#line 14012 "asn_compiler.hpp"
 yy155:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '1':	goto yy252;
-	default:	goto yy49;
+		case 'E': goto yy236;
+		case 'T': goto yy237;
+		default: goto yy35;
 	}
 yy156:
-	yyaccept = 2;
+	yyaccept = 10;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy253;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy157;
 	}
 yy157:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'M':	goto yy254;
-	default:	goto yy49;
-	}
+#line 1833 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
+#line 14094 "asn_compiler.hpp"
 yy158:
-	yyaccept = 2;
+	yyaccept = 11;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy255;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy159;
 	}
 yy159:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'P':	goto yy256;
-	default:	goto yy49;
-	}
+#line 1834 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
+#line 14168 "asn_compiler.hpp"
 yy160:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy257;
-	default:	goto yy49;
+		case 'L': goto yy238;
+		default: goto yy35;
 	}
 yy161:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy258;
-	default:	goto yy49;
+		case 'O': goto yy239;
+		default: goto yy35;
 	}
 yy162:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy259;
-	case 'F':	goto yy260;
-	default:	goto yy49;
+		case 'I': goto yy240;
+		default: goto yy35;
 	}
 yy163:
-	yyaccept = 2;
+	yyaccept = 12;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy261;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy164;
 	}
 yy164:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'd':	goto yy262;
-	case 's':	goto yy263;
-	default:	goto yy49;
-	}
+#line 1838 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
+#line 14263 "asn_compiler.hpp"
 yy165:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy264;
-	default:	goto yy49;
+		case 'S': goto yy241;
+		default: goto yy35;
 	}
 yy166:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy67;
-	default:	goto yy101;
+		case 'L': goto yy242;
+		default: goto yy35;
 	}
 yy167:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'R': goto yy243;
+		default: goto yy35;
+	}
+yy168:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '"':	goto yy167;
-	case '\'':	goto yy78;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case 'I': goto yy244;
+		default: goto yy35;
 	}
 yy169:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy81;
-	default:	goto yy101;
+		case 'S': goto yy245;
+		default: goto yy35;
 	}
 yy170:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy84;
-	default:	goto yy101;
+		case 'P': goto yy246;
+		default: goto yy35;
 	}
 yy171:
-	++context_.cursor;
-#line 11707 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13591 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy247;
+		case 'T': goto yy248;
+		default: goto yy35;
+	}
+yy172:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy249;
+		default: goto yy35;
+	}
 yy173:
-	++context_.cursor;
-#line 11709 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13596 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy251;
+		case 'I': goto yy252;
+		default: goto yy35;
+	}
+yy174:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy253;
+		default: goto yy35;
+	}
 yy175:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'H':	goto yy173;
-	default:	goto yy77;
+		case 'E': goto yy254;
+		default: goto yy35;
 	}
 yy176:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '\n':
-	case '\r':	goto yy92;
-	case '-':	goto yy265;
-	default:	goto yy90;
+		case 'O': goto yy255;
+		default: goto yy35;
 	}
 yy177:
-	++context_.cursor;
-#line 11724 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-#line 13615 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 13;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy178;
+	}
+yy178:
+#line 1857 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
+#line 14423 "asn_compiler.hpp"
 yy179:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'M': goto yy256;
+		default: goto yy35;
+	}
+yy180:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '*':	goto yy179;
-	case '/':	goto yy267;
-	default:	goto yy98;
+		case 'E': goto yy257;
+		default: goto yy35;
 	}
 yy181:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'L': goto yy258;
+		case 'O': goto yy259;
+		default: goto yy35;
+	}
+yy182:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy181;
-	default:	goto yy183;
+		case 'E': goto yy260;
+		default: goto yy35;
 	}
 yy183:
-#line 11701 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-#line 13641 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy261;
+		default: goto yy35;
+	}
 yy184:
-	++context_.cursor;
-#line 11723 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-#line 13646 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'M': goto yy262;
+		default: goto yy35;
+	}
+yy185:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'e': goto yy264;
+		default: goto yy35;
+	}
 yy186:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy269;
-	case 'T':	goto yy270;
-	default:	goto yy49;
+		case 'p': goto yy265;
+		default: goto yy35;
 	}
 yy187:
-	yyaccept = 8;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy188;
+		case 'S': goto yy266;
+		default: goto yy35;
 	}
 yy188:
-#line 11601 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-#line 13728 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy267;
+		default: goto yy35;
+	}
 yy189:
-	yyaccept = 9;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy190;
+		case 'L': goto yy268;
+		case 'O': goto yy269;
+		default: goto yy35;
 	}
 yy190:
-#line 11602 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-#line 13802 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'L': goto yy270;
+		default: goto yy35;
+	}
 yy191:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy271;
-	default:	goto yy49;
+		case 'T': goto yy271;
+		default: goto yy35;
 	}
 yy192:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy272;
-	default:	goto yy49;
+		case 'E': goto yy272;
+		default: goto yy35;
 	}
 yy193:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy273;
-	default:	goto yy49;
+		case '6': goto yy273;
+		default: goto yy35;
 	}
 yy194:
-	yyaccept = 10;
+	yyaccept = 14;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy195;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy195;
 	}
 yy195:
-#line 11606 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-#line 13897 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1880 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
+#line 14604 "asn_compiler.hpp"
 yy196:
-	yyaccept = 2;
+	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy274;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'U': goto yy274;
+		default: goto yy197;
 	}
 yy197:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'L':	goto yy275;
-	default:	goto yy49;
-	}
+#line 1881 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
+#line 14678 "asn_compiler.hpp"
 yy198:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy276;
-	default:	goto yy49;
+		case '-': goto yy275;
+		default: goto yy35;
 	}
 yy199:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy277;
-	default:	goto yy49;
+		case 'L': goto yy276;
+		default: goto yy35;
 	}
 yy200:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy278;
-	default:	goto yy49;
+		case 'e': goto yy278;
+		default: goto yy35;
 	}
 yy201:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy279;
-	default:	goto yy49;
+		case 'E': goto yy279;
+		default: goto yy35;
 	}
 yy202:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy280;
-	case 'T':	goto yy281;
-	default:	goto yy49;
+		case 'E': goto yy280;
+		default: goto yy35;
 	}
 yy203:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy282;
-	default:	goto yy49;
+		case '_': goto yy281;
+		default: goto yy35;
 	}
 yy204:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy284;
-	case 'I':	goto yy285;
-	default:	goto yy49;
+		case 'I': goto yy282;
+		default: goto yy35;
 	}
 yy205:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy286;
-	default:	goto yy49;
+		case 'e': goto yy283;
+		default: goto yy35;
 	}
 yy206:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy287;
-	default:	goto yy49;
+		case 'T': goto yy284;
+		default: goto yy35;
 	}
 yy207:
-	yyaccept = 2;
+	yyaccept = 16;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy288;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy208;
 	}
 yy208:
-	yyaccept = 11;
+#line 1893 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
+#line 14815 "asn_compiler.hpp"
+yy209:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy209;
+		case 'S': goto yy285;
+		default: goto yy35;
 	}
-yy209:
-#line 11625 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-#line 14057 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy210:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy289;
-	default:	goto yy49;
+		case 'S': goto yy286;
+		default: goto yy35;
 	}
 yy211:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy290;
-	default:	goto yy49;
+		case 'V': goto yy287;
+		default: goto yy35;
 	}
 yy212:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy291;
-	case 'O':	goto yy292;
-	default:	goto yy49;
+		case 'n': goto yy288;
+		default: goto yy35;
 	}
 yy213:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy293;
-	default:	goto yy49;
+		case 'L': goto yy289;
+		default: goto yy35;
 	}
 yy214:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy294;
-	default:	goto yy49;
+		case 'A': goto yy291;
+		default: goto yy35;
 	}
 yy215:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy295;
-	default:	goto yy49;
+		case 'U': goto yy292;
+		default: goto yy35;
 	}
 yy216:
-	yyaccept = 2;
+	yyaccept = 17;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy297;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'T': goto yy293;
+		default: goto yy217;
 	}
 yy217:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'p':	goto yy298;
-	default:	goto yy49;
-	}
+#line 1902 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
+#line 14938 "asn_compiler.hpp"
 yy218:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy299;
-	default:	goto yy49;
+		case 'E': goto yy294;
+		default: goto yy35;
 	}
 yy219:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy300;
-	default:	goto yy49;
+		case 'I': goto yy296;
+		default: goto yy35;
 	}
 yy220:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy301;
-	case 'O':	goto yy302;
-	default:	goto yy49;
+		case 'T': goto yy297;
+		default: goto yy35;
 	}
 yy221:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy303;
-	default:	goto yy49;
+		case 'S': goto yy298;
+		default: goto yy35;
 	}
 yy222:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy304;
-	default:	goto yy49;
+		case 'S': goto yy299;
+		default: goto yy35;
 	}
 yy223:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy305;
-	default:	goto yy49;
+		case 'E': goto yy301;
+		default: goto yy35;
 	}
 yy224:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '6':	goto yy306;
-	default:	goto yy49;
+		case 'E': goto yy303;
+		default: goto yy35;
 	}
 yy225:
-	yyaccept = 12;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy226;
+		case 'E': goto yy305;
+		default: goto yy35;
 	}
 yy226:
-#line 11648 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-#line 14238 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'e': goto yy306;
+		default: goto yy35;
+	}
 yy227:
-	yyaccept = 13;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'U':	goto yy307;
-	default:	goto yy228;
+		case 'O': goto yy307;
+		case 'Q': goto yy308;
+		case 'V': goto yy309;
+		default: goto yy35;
 	}
 yy228:
-#line 11649 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-#line 14312 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy310;
+		default: goto yy35;
+	}
 yy229:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy308;
-	default:	goto yy49;
+		case '8': goto yy311;
+		default: goto yy35;
 	}
 yy230:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy309;
-	default:	goto yy49;
+		case 'v': goto yy312;
+		default: goto yy35;
 	}
 yy231:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy311;
-	default:	goto yy49;
+		case 'e': goto yy313;
+		default: goto yy35;
 	}
 yy232:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy312;
-	default:	goto yy49;
+		case 'i': goto yy314;
+		default: goto yy35;
 	}
 yy233:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy313;
-	default:	goto yy49;
+		case 'H': goto yy315;
+		default: goto yy35;
 	}
 yy234:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '_':	goto yy314;
-	default:	goto yy49;
-	}
+	++context_.cursor;
+#line 1926 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
+#line 15057 "asn_compiler.hpp"
 yy235:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'I':	goto yy315;
-	default:	goto yy49;
-	}
+	++context_.cursor;
+#line 1930 "asn_compiler.yacc"
+	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
+#line 15062 "asn_compiler.hpp"
 yy236:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy316;
-	default:	goto yy49;
+		case 'N': goto yy317;
+		default: goto yy35;
 	}
 yy237:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy317;
-	default:	goto yy49;
+		case 'R': goto yy318;
+		default: goto yy35;
 	}
 yy238:
-	yyaccept = 14;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy239;
+		case 'I': goto yy319;
+		default: goto yy35;
 	}
 yy239:
-#line 11661 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-#line 14449 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'M': goto yy320;
+		default: goto yy35;
+	}
 yy240:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy318;
-	default:	goto yy49;
+		case 'N': goto yy321;
+		default: goto yy35;
 	}
 yy241:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy319;
-	default:	goto yy49;
+		case 't': goto yy323;
+		default: goto yy35;
 	}
 yy242:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'V':	goto yy320;
-	default:	goto yy49;
+		case 'E': goto yy324;
+		default: goto yy35;
 	}
 yy243:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy321;
-	default:	goto yy49;
+		case 'A': goto yy325;
+		default: goto yy35;
 	}
 yy244:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy322;
-	default:	goto yy49;
+		case 'C': goto yy326;
+		default: goto yy35;
 	}
 yy245:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy324;
-	default:	goto yy49;
+		case 'S': goto yy327;
+		default: goto yy35;
 	}
 yy246:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy325;
-	default:	goto yy49;
+		case 'O': goto yy329;
+		default: goto yy35;
 	}
 yy247:
-	yyaccept = 15;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'T':	goto yy326;
-	default:	goto yy248;
+		case 'T': goto yy330;
+		default: goto yy35;
 	}
 yy248:
-#line 11670 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-#line 14572 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy249:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy327;
-	default:	goto yy49;
+		case 'A': goto yy331;
+		default: goto yy35;
 	}
-yy250:
-	yyaccept = 2;
+yy249:
+	yyaccept = 18;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy329;
-	default:	goto yy49;
+		case '-': goto yy332;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy250;
 	}
+yy250:
+#line 1849 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
+#line 15227 "asn_compiler.hpp"
 yy251:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy330;
-	default:	goto yy49;
+		case 'U': goto yy333;
+		default: goto yy35;
 	}
 yy252:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy331;
-	default:	goto yy49;
+		case 'N': goto yy334;
+		default: goto yy35;
 	}
 yy253:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy332;
-	default:	goto yy49;
+		case 'T': goto yy335;
+		default: goto yy35;
 	}
 yy254:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy334;
-	default:	goto yy49;
+		case 'D': goto yy336;
+		default: goto yy35;
 	}
 yy255:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy336;
-	default:	goto yy49;
+		case 'D': goto yy337;
+		default: goto yy35;
 	}
 yy256:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy338;
-	default:	goto yy49;
+		case 'E': goto yy338;
+		default: goto yy35;
 	}
 yy257:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy339;
-	default:	goto yy49;
+		case 'P': goto yy339;
+		default: goto yy35;
 	}
 yy258:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy340;
-	case 'Q':	goto yy341;
-	case 'V':	goto yy342;
-	default:	goto yy49;
+		case 'I': goto yy340;
+		default: goto yy35;
 	}
 yy259:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy343;
-	default:	goto yy49;
+		case 'R': goto yy341;
+		default: goto yy35;
 	}
 yy260:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '8':	goto yy344;
-	default:	goto yy49;
+		case 'N': goto yy342;
+		case 'R': goto yy343;
+		default: goto yy35;
 	}
 yy261:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'v':	goto yy345;
-	default:	goto yy49;
+		case 'E': goto yy344;
+		default: goto yy35;
 	}
 yy262:
-	yyaccept = 2;
+	yyaccept = 19;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy346;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy263;
 	}
 yy263:
-	yyaccept = 2;
+#line 1865 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
+#line 15379 "asn_compiler.hpp"
+yy264:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy347;
-	default:	goto yy49;
+		case 'r': goto yy346;
+		default: goto yy35;
 	}
-yy264:
-	yyaccept = 2;
+yy265:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'H':	goto yy348;
-	default:	goto yy49;
+		case 'h': goto yy347;
+		default: goto yy35;
+	}
+yy266:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 't': goto yy348;
+		default: goto yy35;
 	}
-yy265:
-	++context_.cursor;
-#line 11694 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 14691 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy267:
-	++context_.cursor;
-#line 11698 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
-#line 14696 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy349;
+		default: goto yy35;
+	}
+yy268:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy350;
+		default: goto yy35;
+	}
 yy269:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy350;
-	default:	goto yy49;
+		case 'R': goto yy351;
+		default: goto yy35;
 	}
 yy270:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy351;
-	default:	goto yy49;
+		case 'U': goto yy352;
+		default: goto yy35;
 	}
 yy271:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy352;
-	default:	goto yy49;
+		case 'A': goto yy353;
+		case 'R': goto yy354;
+		default: goto yy35;
 	}
 yy272:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy353;
-	default:	goto yy49;
+		case 'G': goto yy355;
+		case 'R': goto yy356;
+		default: goto yy35;
 	}
 yy273:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy354;
-	default:	goto yy49;
+		case '4': goto yy357;
+		default: goto yy35;
 	}
 yy274:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy356;
-	default:	goto yy49;
+		case 'S': goto yy358;
+		default: goto yy35;
 	}
 yy275:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'E':	goto yy357;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'A': goto yy359;
+		default: goto yy57;
 	}
 yy276:
-	yyaccept = 2;
+	yyaccept = 20;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy358;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy277;
 	}
 yy277:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'C':	goto yy359;
-	default:	goto yy49;
-	}
+#line 1884 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
+#line 15600 "asn_compiler.hpp"
 yy278:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy360;
-	default:	goto yy49;
+		case 'r': goto yy360;
+		default: goto yy35;
 	}
 yy279:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy362;
-	default:	goto yy49;
+		case 'C': goto yy361;
+		default: goto yy35;
 	}
 yy280:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy363;
-	default:	goto yy49;
+		case 'T': goto yy362;
+		default: goto yy35;
 	}
 yy281:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy364;
-	default:	goto yy49;
+		case 'I': goto yy364;
+		default: goto yy35;
 	}
 yy282:
-	yyaccept = 16;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy365;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy283;
+		case 'O': goto yy365;
+		default: goto yy35;
 	}
 yy283:
-#line 11617 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-#line 14861 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'c': goto yy366;
+		default: goto yy35;
+	}
 yy284:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy366;
-	default:	goto yy49;
+		case 'E': goto yy367;
+		default: goto yy35;
 	}
 yy285:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy367;
-	default:	goto yy49;
+		case '_': goto yy368;
+		default: goto yy35;
 	}
 yy286:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy368;
-	default:	goto yy49;
+		case 'E': goto yy369;
+		default: goto yy35;
 	}
 yy287:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy369;
-	default:	goto yy49;
+		case 'A': goto yy370;
+		default: goto yy35;
 	}
 yy288:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy370;
-	default:	goto yy49;
+		case 't': goto yy371;
+		default: goto yy35;
 	}
 yy289:
-	yyaccept = 2;
+	yyaccept = 21;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy371;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy290;
 	}
 yy290:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'P':	goto yy372;
-	default:	goto yy49;
-	}
+#line 1898 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
+#line 15751 "asn_compiler.hpp"
 yy291:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy373;
-	default:	goto yy49;
+		case 'T': goto yy372;
+		default: goto yy35;
 	}
 yy292:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy374;
-	default:	goto yy49;
+		case 'E': goto yy373;
+		default: goto yy35;
 	}
 yy293:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy375;
-	case 'R':	goto yy376;
-	default:	goto yy49;
+		case 'I': goto yy374;
+		default: goto yy35;
 	}
 yy294:
-	yyaccept = 2;
+	yyaccept = 22;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy377;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy295;
 	}
 yy295:
-	yyaccept = 17;
+#line 1904 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
+#line 15846 "asn_compiler.hpp"
+yy296:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy296;
+		case 'N': goto yy375;
+		default: goto yy35;
 	}
-yy296:
-#line 11633 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-#line 15013 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy297:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy379;
-	default:	goto yy49;
+		case 'A': goto yy376;
+		default: goto yy35;
 	}
 yy298:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'h':	goto yy380;
-	default:	goto yy49;
+		case 't': goto yy377;
+		default: goto yy35;
 	}
 yy299:
-	yyaccept = 2;
+	yyaccept = 23;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy381;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy300;
 	}
 yy300:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'T':	goto yy382;
-	default:	goto yy49;
-	}
+#line 1908 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
+#line 15941 "asn_compiler.hpp"
 yy301:
-	yyaccept = 2;
+	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy383;
-	default:	goto yy49;
+		case '-': goto yy378;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy302;
 	}
 yy302:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'R':	goto yy384;
-	default:	goto yy49;
-	}
+#line 1910 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
+#line 16015 "asn_compiler.hpp"
 yy303:
-	yyaccept = 2;
+	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy385;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy304;
 	}
 yy304:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'A':	goto yy386;
-	case 'R':	goto yy387;
-	default:	goto yy49;
-	}
+#line 1912 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
+#line 16089 "asn_compiler.hpp"
 yy305:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy388;
-	case 'R':	goto yy389;
-	default:	goto yy49;
+		case '-': goto yy379;
+		default: goto yy35;
 	}
 yy306:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '4':	goto yy390;
-	default:	goto yy49;
+		case 't': goto yy380;
+		default: goto yy35;
 	}
 yy307:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy391;
-	default:	goto yy49;
+		case 'N': goto yy381;
+		default: goto yy35;
 	}
 yy308:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'A':	goto yy392;
-	default:	goto yy101;
+		case 'U': goto yy383;
+		default: goto yy35;
 	}
 yy309:
-	yyaccept = 18;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy310;
+		case 'E': goto yy384;
+		default: goto yy35;
 	}
 yy310:
-#line 11652 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-#line 15234 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'i': goto yy385;
+		default: goto yy35;
+	}
 yy311:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy393;
-	default:	goto yy49;
+		case 'S': goto yy386;
+		default: goto yy35;
 	}
 yy312:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy394;
-	default:	goto yy49;
+		case 'e': goto yy387;
+		default: goto yy35;
 	}
 yy313:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy395;
-	default:	goto yy49;
+		case 'o': goto yy388;
+		default: goto yy35;
 	}
 yy314:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy397;
-	default:	goto yy49;
+		case 'b': goto yy389;
+		default: goto yy35;
 	}
 yy315:
-	yyaccept = 2;
+	yyaccept = 26;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy398;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy316;
 	}
 yy316:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'c':	goto yy399;
-	default:	goto yy49;
-	}
+#line 1922 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
+#line 16233 "asn_compiler.hpp"
 yy317:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy400;
-	default:	goto yy49;
+		case 'T': goto yy390;
+		default: goto yy35;
 	}
 yy318:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '_':	goto yy401;
-	default:	goto yy49;
+		case 'A': goto yy392;
+		default: goto yy35;
 	}
 yy319:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy402;
-	default:	goto yy49;
+		case 'C': goto yy393;
+		default: goto yy35;
 	}
 yy320:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy403;
-	default:	goto yy49;
+		case 'A': goto yy394;
+		default: goto yy35;
 	}
 yy321:
-	yyaccept = 2;
+	yyaccept = 27;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy404;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy322;
 	}
 yy322:
-	yyaccept = 19;
+#line 1837 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
+#line 16335 "asn_compiler.hpp"
+yy323:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy323;
+		case 'r': goto yy395;
+		default: goto yy35;
 	}
-yy323:
-#line 11666 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-#line 15385 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy324:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy405;
-	default:	goto yy49;
+		case 'A': goto yy396;
+		default: goto yy35;
 	}
 yy325:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy406;
-	default:	goto yy49;
+		case 'C': goto yy397;
+		default: goto yy35;
 	}
 yy326:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy407;
-	default:	goto yy49;
+		case 'E': goto yy398;
+		default: goto yy35;
 	}
 yy327:
-	yyaccept = 20;
+	yyaccept = 28;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy328;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy328;
 	}
 yy328:
-#line 11672 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-#line 15480 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1844 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
+#line 16437 "asn_compiler.hpp"
 yy329:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy408;
-	default:	goto yy49;
+		case 'N': goto yy400;
+		default: goto yy35;
 	}
 yy330:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy409;
-	default:	goto yy49;
+		case 'R': goto yy401;
+		default: goto yy35;
 	}
 yy331:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy410;
-	default:	goto yy49;
+		case 'I': goto yy402;
+		default: goto yy35;
 	}
 yy332:
-	yyaccept = 21;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy333;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'T': goto yy403;
+		default: goto yy57;
 	}
 yy333:
-#line 11676 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-#line 15575 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'L': goto yy404;
+		default: goto yy35;
+	}
 yy334:
-	yyaccept = 22;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy411;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy335;
+		case 'I': goto yy405;
+		default: goto yy35;
 	}
 yy335:
-#line 11678 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-#line 15649 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy406;
+		default: goto yy35;
+	}
 yy336:
-	yyaccept = 23;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy337;
+		case 'D': goto yy407;
+		default: goto yy35;
 	}
 yy337:
-#line 11680 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-#line 15723 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy408;
+		case 'I': goto yy409;
+		default: goto yy35;
+	}
 yy338:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy412;
-	default:	goto yy49;
+		case 'R': goto yy410;
+		default: goto yy35;
 	}
 yy339:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy413;
-	default:	goto yy49;
+		case 'T': goto yy411;
+		default: goto yy35;
 	}
 yy340:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy414;
-	default:	goto yy49;
+		case 'C': goto yy413;
+		default: goto yy35;
 	}
 yy341:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy416;
-	default:	goto yy49;
+		case 'T': goto yy414;
+		default: goto yy35;
 	}
 yy342:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy417;
-	default:	goto yy49;
+		case 'S': goto yy415;
+		default: goto yy35;
 	}
 yy343:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy418;
-	default:	goto yy49;
+		case 'N': goto yy416;
+		default: goto yy35;
 	}
 yy344:
-	yyaccept = 2;
+	yyaccept = 29;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy419;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy345;
 	}
 yy345:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'e':	goto yy420;
-	default:	goto yy49;
-	}
+#line 1864 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
+#line 16678 "asn_compiler.hpp"
 yy346:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'o':	goto yy421;
-	default:	goto yy49;
+		case 'a': goto yy417;
+		default: goto yy35;
 	}
 yy347:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'b':	goto yy422;
-	default:	goto yy49;
+		case 'i': goto yy418;
+		default: goto yy35;
 	}
 yy348:
-	yyaccept = 24;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy349;
+		case 'r': goto yy419;
+		default: goto yy35;
 	}
 yy349:
-#line 11690 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-#line 15867 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy420;
+		default: goto yy35;
+	}
 yy350:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy423;
-	default:	goto yy49;
+		case 'C': goto yy421;
+		case 'E': goto yy422;
+		default: goto yy35;
 	}
 yy351:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy425;
-	default:	goto yy49;
+		case 'T': goto yy423;
+		default: goto yy35;
 	}
 yy352:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy426;
-	default:	goto yy49;
+		case 'D': goto yy424;
+		default: goto yy35;
 	}
 yy353:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy427;
-	default:	goto yy49;
+		case 'N': goto yy425;
+		default: goto yy35;
 	}
 yy354:
-	yyaccept = 25;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy355;
+		case 'U': goto yy426;
+		default: goto yy35;
 	}
 yy355:
-#line 11605 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-#line 15969 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy427;
+		default: goto yy35;
+	}
 yy356:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy428;
-	default:	goto yy49;
+		case 'S': goto yy428;
+		default: goto yy35;
 	}
 yy357:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy429;
-	default:	goto yy49;
+		case '6': goto yy429;
+		default: goto yy35;
 	}
 yy358:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy430;
-	default:	goto yy49;
+		case '-': goto yy430;
+		default: goto yy35;
 	}
 yy359:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy431;
-	default:	goto yy49;
+		case '-': goto yy431;
+		default: goto yy35;
 	}
 yy360:
-	yyaccept = 26;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy361;
+		case 'i': goto yy432;
+		default: goto yy35;
 	}
 yy361:
-#line 11612 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-#line 16071 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy362:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy433;
-	default:	goto yy49;
+		case 'T': goto yy433;
+		default: goto yy35;
 	}
-yy363:
-	yyaccept = 2;
+yy362:
+	yyaccept = 30;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy434;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy363;
 	}
+yy363:
+#line 1888 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
+#line 16865 "asn_compiler.hpp"
 yy364:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy435;
-	default:	goto yy49;
+		case 'R': goto yy435;
+		default: goto yy35;
 	}
 yy365:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'T':	goto yy436;
-	default:	goto yy101;
+		case 'N': goto yy436;
+		default: goto yy35;
 	}
 yy366:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy437;
-	default:	goto yy49;
+		case 't': goto yy437;
+		default: goto yy35;
 	}
 yy367:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy438;
-	default:	goto yy49;
+		case 'R': goto yy438;
+		default: goto yy35;
 	}
 yy368:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy439;
-	default:	goto yy49;
+		case 'I': goto yy439;
+		default: goto yy35;
 	}
 yy369:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy440;
-	default:	goto yy49;
+		case 'N': goto yy440;
+		default: goto yy35;
 	}
 yy370:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy441;
-	case 'I':	goto yy442;
-	default:	goto yy49;
+		case 'T': goto yy441;
+		default: goto yy35;
 	}
 yy371:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy443;
-	default:	goto yy49;
+		case 'a': goto yy442;
+		default: goto yy35;
 	}
 yy372:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy444;
-	default:	goto yy49;
+		case 'I': goto yy443;
+		default: goto yy35;
 	}
 yy373:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy446;
-	default:	goto yy49;
+		case 'N': goto yy444;
+		default: goto yy35;
 	}
 yy374:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy447;
-	default:	goto yy49;
+		case 'N': goto yy445;
+		default: goto yy35;
 	}
 yy375:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy448;
-	default:	goto yy49;
+		case 'G': goto yy446;
+		default: goto yy35;
 	}
 yy376:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy449;
-	default:	goto yy49;
+		case 'X': goto yy448;
+		default: goto yy35;
 	}
 yy377:
-	yyaccept = 27;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy378;
+		case 'r': goto yy450;
+		default: goto yy35;
 	}
 yy378:
-#line 11632 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-#line 16312 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'O': goto yy451;
+		default: goto yy57;
+	}
 yy379:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'a':	goto yy450;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy452;
+		default: goto yy57;
 	}
 yy380:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy451;
-	default:	goto yy49;
+		case 'e': goto yy453;
+		default: goto yy35;
 	}
 yy381:
-	yyaccept = 2;
+	yyaccept = 31;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy452;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy382;
 	}
 yy382:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'I':	goto yy453;
-	default:	goto yy49;
-	}
+#line 1914 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
+#line 17180 "asn_compiler.hpp"
 yy383:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy454;
-	case 'E':	goto yy455;
-	default:	goto yy49;
+		case 'E': goto yy454;
+		default: goto yy35;
 	}
 yy384:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy456;
-	default:	goto yy49;
+		case 'R': goto yy456;
+		default: goto yy35;
 	}
 yy385:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy457;
-	default:	goto yy49;
+		case 'm': goto yy457;
+		default: goto yy35;
 	}
 yy386:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy458;
-	default:	goto yy49;
+		case 't': goto yy458;
+		default: goto yy35;
 	}
 yy387:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy459;
-	default:	goto yy49;
+		case 'r': goto yy459;
+		default: goto yy35;
 	}
 yy388:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy460;
-	default:	goto yy49;
+		case 't': goto yy460;
+		default: goto yy35;
 	}
 yy389:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy461;
-	default:	goto yy49;
+		case 'l': goto yy461;
+		default: goto yy35;
 	}
 yy390:
-	yyaccept = 2;
+	yyaccept = 32;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '6':	goto yy462;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy391;
 	}
 yy391:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy463;
-	default:	goto yy49;
-	}
+#line 1831 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
+#line 17303 "asn_compiler.hpp"
 yy392:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy464;
-	default:	goto yy49;
+		case 'C': goto yy462;
+		default: goto yy35;
 	}
 yy393:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy465;
-	default:	goto yy49;
+		case 'A': goto yy463;
+		default: goto yy35;
 	}
 yy394:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy466;
-	default:	goto yy49;
+		case 'T': goto yy464;
+		default: goto yy35;
 	}
 yy395:
-	yyaccept = 28;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy396;
+		case 'i': goto yy465;
+		default: goto yy35;
 	}
 yy396:
-#line 11656 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-#line 16499 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy397:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy468;
-	default:	goto yy49;
+		case 'N': goto yy466;
+		default: goto yy35;
 	}
-yy398:
-	yyaccept = 2;
+yy397:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy469;
-	default:	goto yy49;
+		case 'T': goto yy468;
+		default: goto yy35;
 	}
-yy399:
-	yyaccept = 2;
+yy398:
+	yyaccept = 33;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy470;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy399;
 	}
+yy399:
+#line 1843 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
+#line 17419 "asn_compiler.hpp"
 yy400:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy471;
-	default:	goto yy49;
+		case 'E': goto yy469;
+		default: goto yy35;
 	}
 yy401:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy472;
-	default:	goto yy49;
+		case 'A': goto yy470;
+		default: goto yy35;
 	}
 yy402:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy473;
-	default:	goto yy49;
+		case 'N': goto yy471;
+		default: goto yy35;
 	}
 yy403:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy474;
-	default:	goto yy49;
+		case 'I': goto yy472;
+		default: goto yy35;
 	}
 yy404:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy475;
-	default:	goto yy49;
+		case 'T': goto yy473;
+		default: goto yy35;
 	}
 yy405:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy476;
-	default:	goto yy49;
+		case 'T': goto yy475;
+		default: goto yy35;
 	}
 yy406:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy477;
-	default:	goto yy49;
+		case 'O': goto yy476;
+		default: goto yy35;
 	}
 yy407:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy478;
-	default:	goto yy49;
+		case 'E': goto yy477;
+		default: goto yy35;
 	}
 yy408:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy479;
-	default:	goto yy49;
+		case 'D': goto yy478;
+		default: goto yy35;
 	}
 yy409:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'X':	goto yy481;
-	default:	goto yy49;
+		case 'N': goto yy480;
+		default: goto yy35;
 	}
 yy410:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy483;
-	default:	goto yy49;
+		case 'A': goto yy481;
+		default: goto yy35;
 	}
 yy411:
-	yych = *++context_.cursor;
+	yyaccept = 34;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'O':	goto yy484;
-	default:	goto yy101;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy412;
 	}
 yy412:
-	yych = *++context_.cursor;
-	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'I':	goto yy485;
-	default:	goto yy101;
-	}
+#line 1859 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
+#line 17570 "asn_compiler.hpp"
 yy413:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy486;
-	default:	goto yy49;
+		case 'I': goto yy482;
+		default: goto yy35;
 	}
 yy414:
-	yyaccept = 29;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy415;
+		case 'S': goto yy483;
+		default: goto yy35;
 	}
 yy415:
-#line 11682 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-#line 16814 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy485;
+		default: goto yy35;
+	}
 yy416:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy487;
-	default:	goto yy49;
+		case 'A': goto yy486;
+		default: goto yy35;
 	}
 yy417:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy489;
-	default:	goto yy49;
+		case 'l': goto yy487;
+		default: goto yy35;
 	}
 yy418:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'm':	goto yy490;
-	default:	goto yy49;
+		case 'c': goto yy488;
+		default: goto yy35;
 	}
 yy419:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy491;
-	default:	goto yy49;
+		case 'i': goto yy489;
+		default: goto yy35;
 	}
 yy420:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy492;
-	default:	goto yy49;
+		case 'F': goto yy490;
+		default: goto yy35;
 	}
 yy421:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy493;
-	default:	goto yy49;
+		case 'I': goto yy491;
+		default: goto yy35;
 	}
 yy422:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy494;
-	default:	goto yy49;
+		case 'D': goto yy492;
+		default: goto yy35;
 	}
 yy423:
-	yyaccept = 30;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy424;
+		case 'S': goto yy494;
+		default: goto yy35;
 	}
 yy424:
-#line 11599 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-#line 16937 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy496;
+		default: goto yy35;
+	}
 yy425:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy495;
-	default:	goto yy49;
+		case 'C': goto yy497;
+		default: goto yy35;
 	}
 yy426:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy496;
-	default:	goto yy49;
+		case 'C': goto yy498;
+		default: goto yy35;
 	}
 yy427:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy497;
-	default:	goto yy49;
+		case 'R': goto yy499;
+		default: goto yy35;
 	}
 yy428:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy498;
-	default:	goto yy49;
+		case 'E': goto yy501;
+		default: goto yy35;
 	}
 yy429:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy499;
-	default:	goto yy49;
+		case 'S': goto yy502;
+		default: goto yy35;
 	}
 yy430:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'T':	goto yy501;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy503;
+		default: goto yy57;
 	}
 yy431:
-	yyaccept = 31;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy432;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'N': goto yy504;
+		default: goto yy57;
 	}
 yy432:
-#line 11611 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-#line 17053 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy433:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy502;
-	default:	goto yy49;
+		case 'c': goto yy505;
+		default: goto yy35;
 	}
-yy434:
-	yyaccept = 2;
+yy433:
+	yyaccept = 35;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy503;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy434;
 	}
+yy434:
+#line 1886 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
+#line 17906 "asn_compiler.hpp"
 yy435:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy504;
-	default:	goto yy49;
+		case 'I': goto yy506;
+		default: goto yy35;
 	}
 yy436:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy505;
-	default:	goto yy49;
+		case 'A': goto yy508;
+		default: goto yy35;
 	}
 yy437:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy506;
-	default:	goto yy49;
+		case 'D': goto yy509;
+		default: goto yy35;
 	}
 yy438:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy508;
-	default:	goto yy49;
+		case 'N': goto yy510;
+		default: goto yy35;
 	}
 yy439:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy509;
-	default:	goto yy49;
+		case 'N': goto yy512;
+		default: goto yy35;
 	}
 yy440:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy510;
-	default:	goto yy49;
+		case 'T': goto yy513;
+		default: goto yy35;
 	}
 yy441:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy511;
-	default:	goto yy49;
+		case 'E': goto yy515;
+		default: goto yy35;
 	}
 yy442:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy513;
-	default:	goto yy49;
+		case 'b': goto yy517;
+		default: goto yy35;
 	}
 yy443:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy514;
-	default:	goto yy49;
+		case 'V': goto yy518;
+		default: goto yy35;
 	}
 yy444:
-	yyaccept = 32;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy445;
+		case 'C': goto yy519;
+		default: goto yy35;
 	}
 yy445:
-#line 11627 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-#line 17204 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy446:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy515;
-	default:	goto yy49;
+		case 'G': goto yy520;
+		default: goto yy35;
 	}
-yy447:
-	yyaccept = 2;
+yy446:
+	yyaccept = 36;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy516;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy447;
 	}
+yy447:
+#line 1905 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
+#line 18057 "asn_compiler.hpp"
 yy448:
-	yyaccept = 2;
+	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy518;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy449;
 	}
 yy449:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'A':	goto yy519;
-	default:	goto yy49;
-	}
+#line 1906 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
+#line 18131 "asn_compiler.hpp"
 yy450:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy520;
-	default:	goto yy49;
+		case 'i': goto yy521;
+		default: goto yy35;
 	}
 yy451:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy521;
-	default:	goto yy49;
+		case 'F': goto yy522;
+		default: goto yy35;
 	}
 yy452:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy522;
-	default:	goto yy49;
+		case 'D': goto yy523;
+		default: goto yy35;
 	}
 yy453:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy523;
-	default:	goto yy49;
+		case 'x': goto yy524;
+		default: goto yy35;
 	}
 yy454:
-	yyaccept = 2;
+	yyaccept = 38;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy524;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy455;
 	}
 yy455:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'D':	goto yy525;
-	default:	goto yy49;
-	}
+#line 1915 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
+#line 18233 "asn_compiler.hpp"
 yy456:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy527;
-	default:	goto yy49;
+		case 'S': goto yy525;
+		default: goto yy35;
 	}
 yy457:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy529;
-	default:	goto yy49;
+		case 'e': goto yy526;
+		default: goto yy35;
 	}
 yy458:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy530;
-	default:	goto yy49;
+		case 'r': goto yy528;
+		default: goto yy35;
 	}
 yy459:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy531;
-	default:	goto yy49;
+		case 's': goto yy529;
+		default: goto yy35;
 	}
 yy460:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy532;
-	default:	goto yy49;
+		case 'e': goto yy530;
+		default: goto yy35;
 	}
 yy461:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy534;
-	default:	goto yy49;
+		case 'e': goto yy531;
+		default: goto yy35;
 	}
 yy462:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy535;
-	default:	goto yy49;
+		case 'T': goto yy532;
+		default: goto yy35;
 	}
 yy463:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'I':	goto yy536;
-	default:	goto yy101;
+		case 'T': goto yy533;
+		default: goto yy35;
 	}
 yy464:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'N':	goto yy537;
-	default:	goto yy101;
+		case 'I': goto yy534;
+		default: goto yy35;
 	}
 yy465:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy538;
-	default:	goto yy49;
+		case 'n': goto yy535;
+		default: goto yy35;
 	}
 yy466:
-	yyaccept = 33;
+	yyaccept = 39;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy467;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy467;
 	}
 yy467:
-#line 11654 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-#line 17540 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1840 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
+#line 18377 "asn_compiler.hpp"
 yy468:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy539;
-	default:	goto yy49;
+		case 'E': goto yy536;
+		default: goto yy35;
 	}
 yy469:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy541;
-	default:	goto yy49;
+		case 'N': goto yy537;
+		default: goto yy35;
 	}
 yy470:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy542;
-	default:	goto yy49;
+		case 'I': goto yy538;
+		default: goto yy35;
 	}
 yy471:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy543;
-	default:	goto yy49;
+		case 'I': goto yy539;
+		default: goto yy35;
 	}
 yy472:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy545;
-	default:	goto yy49;
+		case 'M': goto yy540;
+		default: goto yy35;
 	}
 yy473:
-	yyaccept = 2;
+	yyaccept = 40;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy546;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy474;
 	}
 yy474:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'E':	goto yy548;
-	default:	goto yy49;
-	}
+#line 1851 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
+#line 18486 "asn_compiler.hpp"
 yy475:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'b':	goto yy550;
-	default:	goto yy49;
+		case 'I': goto yy541;
+		default: goto yy35;
 	}
 yy476:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'V':	goto yy551;
-	default:	goto yy49;
+		case 'N': goto yy542;
+		default: goto yy35;
 	}
 yy477:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy552;
-	default:	goto yy49;
+		case 'D': goto yy544;
+		default: goto yy35;
 	}
 yy478:
-	yyaccept = 2;
+	yyaccept = 41;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy553;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy479;
 	}
 yy479:
-	yyaccept = 34;
+#line 1855 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
+#line 18581 "asn_compiler.hpp"
+yy480:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy480;
+		case 'G': goto yy546;
+		default: goto yy35;
 	}
-yy480:
-#line 11673 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-#line 17691 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy481:
-	yyaccept = 35;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy482;
+		case 'T': goto yy547;
+		default: goto yy35;
 	}
 yy482:
-#line 11674 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-#line 17765 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy483:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy554;
-	default:	goto yy49;
+		case 'T': goto yy548;
+		default: goto yy35;
 	}
-yy484:
-	yyaccept = 2;
+yy483:
+	yyaccept = 42;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy555;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy484;
 	}
+yy484:
+#line 1861 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
+#line 18676 "asn_compiler.hpp"
 yy485:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy556;
-	default:	goto yy49;
+		case 'B': goto yy550;
+		default: goto yy35;
 	}
 yy486:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'x':	goto yy557;
-	default:	goto yy49;
+		case 'L': goto yy551;
+		default: goto yy35;
 	}
 yy487:
-	yyaccept = 36;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy488;
+		case 'S': goto yy553;
+		case 'i': goto yy554;
+		default: goto yy35;
 	}
 yy488:
-#line 11683 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-#line 17867 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy555;
+		default: goto yy35;
+	}
 yy489:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy558;
-	default:	goto yy49;
+		case 'n': goto yy556;
+		default: goto yy35;
 	}
 yy490:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy559;
-	default:	goto yy49;
+		case 'I': goto yy557;
+		default: goto yy35;
 	}
 yy491:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy561;
-	default:	goto yy49;
+		case 'T': goto yy558;
+		default: goto yy35;
 	}
 yy492:
-	yyaccept = 2;
+	yyaccept = 43;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 's':	goto yy562;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy493;
 	}
 yy493:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'e':	goto yy563;
-	default:	goto yy49;
-	}
+#line 1872 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
+#line 18800 "asn_compiler.hpp"
 yy494:
-	yyaccept = 2;
+	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy564;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy495;
 	}
 yy495:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'T':	goto yy565;
-	default:	goto yy49;
-	}
+#line 1873 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
+#line 18874 "asn_compiler.hpp"
 yy496:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy566;
-	default:	goto yy49;
+		case 'S': goto yy560;
+		default: goto yy35;
 	}
 yy497:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy567;
-	default:	goto yy49;
+		case 'E': goto yy562;
+		default: goto yy35;
 	}
 yy498:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy568;
-	default:	goto yy49;
+		case 'T': goto yy564;
+		default: goto yy35;
 	}
 yy499:
-	yyaccept = 37;
+	yyaccept = 45;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy500;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy500;
 	}
 yy500:
-#line 11608 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-#line 18011 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1877 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
+#line 18969 "asn_compiler.hpp"
 yy501:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy569;
-	default:	goto yy49;
+		case 'C': goto yy565;
+		default: goto yy35;
 	}
 yy502:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy570;
-	default:	goto yy49;
+		case 't': goto yy566;
+		default: goto yy35;
 	}
 yy503:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy571;
-	default:	goto yy49;
+		case 'N': goto yy567;
+		default: goto yy35;
 	}
 yy504:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy572;
-	default:	goto yy49;
+		case 'U': goto yy568;
+		default: goto yy35;
 	}
 yy505:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy573;
-	default:	goto yy49;
+		case 'S': goto yy569;
+		default: goto yy35;
 	}
 yy506:
-	yyaccept = 38;
+	yyaccept = 46;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy507;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy507;
 	}
 yy507:
-#line 11619 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-#line 18120 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1890 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
+#line 19078 "asn_compiler.hpp"
 yy508:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy574;
-	default:	goto yy49;
+		case 'L': goto yy570;
+		default: goto yy35;
 	}
 yy509:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy575;
-	default:	goto yy49;
+		case 'e': goto yy572;
+		default: goto yy35;
 	}
 yy510:
-	yyaccept = 2;
+	yyaccept = 47;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy577;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy511;
 	}
 yy511:
-	yyaccept = 39;
+#line 1892 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
+#line 19166 "asn_compiler.hpp"
+yy512:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy512;
+		case 'F': goto yy573;
+		default: goto yy35;
 	}
-yy512:
-#line 11623 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-#line 18215 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy513:
-	yyaccept = 2;
+	yyaccept = 48;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy579;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy514;
 	}
 yy514:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'T':	goto yy580;
-	default:	goto yy49;
-	}
+#line 1895 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
+#line 19247 "asn_compiler.hpp"
 yy515:
-	yyaccept = 2;
+	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy581;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy516;
 	}
 yy516:
-	yyaccept = 40;
+#line 1897 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
+#line 19321 "asn_compiler.hpp"
+yy517:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy517;
+		case 'l': goto yy574;
+		default: goto yy35;
 	}
-yy517:
-#line 11629 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-#line 18310 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy518:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy583;
-	default:	goto yy49;
+		case 'E': goto yy575;
+		default: goto yy35;
 	}
 yy519:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy584;
-	default:	goto yy49;
+		case 'E': goto yy576;
+		default: goto yy35;
 	}
 yy520:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy586;
-	case 'i':	goto yy587;
-	default:	goto yy49;
+		case 'S': goto yy578;
+		default: goto yy35;
 	}
 yy521:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy588;
-	default:	goto yy49;
+		case 'n': goto yy580;
+		default: goto yy35;
 	}
 yy522:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy589;
-	default:	goto yy49;
+		case '-': goto yy581;
+		default: goto yy35;
 	}
 yy523:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy590;
-	default:	goto yy49;
+		case 'E': goto yy582;
+		default: goto yy35;
 	}
 yy524:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy591;
-	default:	goto yy49;
+		case 'S': goto yy583;
+		default: goto yy35;
 	}
 yy525:
-	yyaccept = 41;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy526;
+		case 'A': goto yy584;
+		default: goto yy35;
 	}
 yy526:
-#line 11640 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-#line 18434 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy527:
-	yyaccept = 42;
+	yyaccept = 50;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy528;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy527;
 	}
+yy527:
+#line 1918 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
+#line 19458 "asn_compiler.hpp"
 yy528:
-#line 11641 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-#line 18508 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'i': goto yy585;
+		default: goto yy35;
+	}
 yy529:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy593;
-	default:	goto yy49;
+		case 'a': goto yy586;
+		default: goto yy35;
 	}
 yy530:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy595;
-	default:	goto yy49;
+		case 'x': goto yy587;
+		default: goto yy35;
 	}
 yy531:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy597;
-	default:	goto yy49;
+		case 'S': goto yy588;
+		default: goto yy35;
 	}
 yy532:
-	yyaccept = 43;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy533;
+		case '-': goto yy589;
+		default: goto yy35;
 	}
 yy533:
-#line 11645 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-#line 18603 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy534:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy598;
-	default:	goto yy49;
+		case 'I': goto yy590;
+		default: goto yy35;
 	}
-yy535:
-	yyaccept = 2;
+yy534:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy599;
-	default:	goto yy49;
+		case 'C': goto yy591;
+		default: goto yy35;
+	}
+yy535:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'g': goto yy593;
+		default: goto yy35;
 	}
 yy536:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy600;
-	default:	goto yy49;
+		case 'R': goto yy595;
+		default: goto yy35;
 	}
 yy537:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy601;
-	default:	goto yy49;
+		case 'T': goto yy597;
+		default: goto yy35;
 	}
 yy538:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy602;
-	default:	goto yy49;
+		case 'N': goto yy599;
+		default: goto yy35;
 	}
 yy539:
-	yyaccept = 44;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy540;
+		case 'N': goto yy600;
+		default: goto yy35;
 	}
 yy540:
-#line 11658 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-#line 18712 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy601;
+		default: goto yy35;
+	}
 yy541:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy603;
-	default:	goto yy49;
+		case 'O': goto yy603;
+		default: goto yy35;
 	}
 yy542:
-	yyaccept = 2;
+	yyaccept = 51;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy605;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy543;
 	}
 yy543:
-	yyaccept = 45;
+#line 1853 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
+#line 19630 "asn_compiler.hpp"
+yy544:
+	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy544;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy545;
 	}
-yy544:
-#line 11660 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-#line 18800 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy545:
-	yyaccept = 2;
+#line 1854 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
+#line 19704 "asn_compiler.hpp"
+yy546:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy606;
-	default:	goto yy49;
+		case '_': goto yy604;
+		default: goto yy35;
 	}
-yy546:
-	yyaccept = 46;
+yy547:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy547;
+		case 'E': goto yy605;
+		default: goto yy35;
 	}
-yy547:
-#line 11663 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-#line 18881 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy548:
-	yyaccept = 47;
+	yyaccept = 53;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy549;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy549;
 	}
 yy549:
-#line 11665 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-#line 18955 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1860 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
+#line 19792 "asn_compiler.hpp"
 yy550:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy607;
-	default:	goto yy49;
+		case 'I': goto yy606;
+		default: goto yy35;
 	}
 yy551:
-	yyaccept = 2;
+	yyaccept = 54;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy608;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy552;
 	}
 yy552:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'E':	goto yy609;
-	default:	goto yy49;
-	}
+#line 1863 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
+#line 19873 "asn_compiler.hpp"
 yy553:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy611;
-	default:	goto yy49;
+		case 't': goto yy607;
+		default: goto yy35;
 	}
 yy554:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy613;
-	default:	goto yy49;
+		case 'z': goto yy608;
+		default: goto yy35;
 	}
 yy555:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy614;
-	default:	goto yy49;
+		case 't': goto yy609;
+		default: goto yy35;
 	}
 yy556:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy615;
-	default:	goto yy49;
+		case 'g': goto yy610;
+		default: goto yy35;
 	}
 yy557:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy616;
-	default:	goto yy49;
+		case 'E': goto yy612;
+		default: goto yy35;
 	}
 yy558:
-	yyaccept = 2;
+	yyaccept = 55;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy617;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy559;
 	}
 yy559:
-	yyaccept = 48;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy560;
-	}
+#line 1871 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
+#line 19982 "asn_compiler.hpp"
 yy560:
-#line 11686 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-#line 19092 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy561:
-	yyaccept = 2;
+	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy618;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy561;
 	}
+yy561:
+#line 1874 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
+#line 20056 "asn_compiler.hpp"
 yy562:
-	yyaccept = 2;
+	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy619;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy563;
 	}
 yy563:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'x':	goto yy620;
-	default:	goto yy49;
-	}
+#line 1875 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
+#line 20130 "asn_compiler.hpp"
 yy564:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy621;
-	default:	goto yy49;
+		case 'I': goto yy613;
+		default: goto yy35;
 	}
 yy565:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy622;
-	default:	goto yy49;
+		case 'T': goto yy614;
+		default: goto yy35;
 	}
 yy566:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy623;
-	default:	goto yy49;
+		case 'r': goto yy615;
+		default: goto yy35;
 	}
 yy567:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy624;
-	default:	goto yy49;
+		case 'F': goto yy616;
+		default: goto yy35;
 	}
 yy568:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy626;
-	default:	goto yy49;
+		case 'M': goto yy617;
+		default: goto yy35;
 	}
 yy569:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy628;
-	default:	goto yy49;
+		case 't': goto yy618;
+		default: goto yy35;
 	}
 yy570:
-	yyaccept = 2;
+	yyaccept = 58;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy630;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy571;
 	}
 yy571:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'N':	goto yy632;
-	default:	goto yy49;
-	}
+#line 1891 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
+#line 20246 "asn_compiler.hpp"
 yy572:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy633;
-	default:	goto yy49;
+		case 's': goto yy619;
+		default: goto yy35;
 	}
 yy573:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy634;
-	default:	goto yy49;
+		case 'I': goto yy620;
+		default: goto yy35;
 	}
 yy574:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy636;
-	default:	goto yy49;
+		case 'e': goto yy621;
+		default: goto yy35;
 	}
 yy575:
-	yyaccept = 49;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy576;
+		case '-': goto yy622;
+		default: goto yy35;
 	}
 yy576:
-#line 11621 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-#line 19264 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy577:
-	yyaccept = 50;
+	yyaccept = 59;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy578;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy577;
 	}
+yy577:
+#line 1901 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
+#line 20348 "asn_compiler.hpp"
 yy578:
-#line 11622 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-#line 19338 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy579:
-	yyaccept = 2;
+	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '_':	goto yy637;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy579;
 	}
+yy579:
+#line 1903 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
+#line 20422 "asn_compiler.hpp"
 yy580:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy638;
-	default:	goto yy49;
+		case 'g': goto yy623;
+		default: goto yy35;
 	}
 yy581:
-	yyaccept = 51;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy582;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'D': goto yy625;
+		default: goto yy57;
 	}
 yy582:
-#line 11628 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-#line 19426 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy626;
+		default: goto yy35;
+	}
 yy583:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy639;
-	default:	goto yy49;
+		case 't': goto yy627;
+		default: goto yy35;
 	}
 yy584:
-	yyaccept = 52;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy585;
+		case 'L': goto yy628;
+		default: goto yy35;
 	}
 yy585:
-#line 11631 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-#line 19507 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'n': goto yy630;
+		default: goto yy35;
+	}
 yy586:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy640;
-	default:	goto yy49;
+		case 'l': goto yy631;
+		default: goto yy35;
 	}
 yy587:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'z':	goto yy641;
-	default:	goto yy49;
+		case 'S': goto yy632;
+		default: goto yy35;
 	}
 yy588:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy642;
-	default:	goto yy49;
+		case 't': goto yy633;
+		default: goto yy35;
 	}
 yy589:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'g':	goto yy643;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'S': goto yy634;
+		default: goto yy57;
 	}
 yy590:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy645;
-	default:	goto yy49;
+		case 'O': goto yy635;
+		default: goto yy35;
 	}
 yy591:
-	yyaccept = 53;
+	yyaccept = 61;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy592;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy592;
 	}
 yy592:
-#line 11639 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-#line 19616 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1836 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
+#line 20695 "asn_compiler.hpp"
 yy593:
-	yyaccept = 54;
+	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy594;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy594;
 	}
 yy594:
-#line 11642 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-#line 19690 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1839 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
+#line 20769 "asn_compiler.hpp"
 yy595:
-	yyaccept = 55;
+	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy596;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy596;
 	}
 yy596:
-#line 11643 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-#line 19764 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1842 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
+#line 20843 "asn_compiler.hpp"
 yy597:
-	yyaccept = 2;
+	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy646;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'S': goto yy636;
+		default: goto yy598;
 	}
 yy598:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'T':	goto yy647;
-	default:	goto yy49;
-	}
+#line 1845 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
+#line 20917 "asn_compiler.hpp"
 yy599:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy648;
-	default:	goto yy49;
+		case 'E': goto yy638;
+		default: goto yy35;
 	}
 yy600:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy649;
-	default:	goto yy49;
+		case 'G': goto yy639;
+		default: goto yy35;
 	}
 yy601:
-	yyaccept = 2;
+	yyaccept = 65;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy650;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy602;
 	}
 yy602:
-	yyaccept = 2;
+#line 1850 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
+#line 21005 "asn_compiler.hpp"
+yy603:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy651;
-	default:	goto yy49;
+		case 'N': goto yy641;
+		default: goto yy35;
 	}
-yy603:
-	yyaccept = 56;
+yy604:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy604;
+		case 'C': goto yy642;
+		default: goto yy35;
 	}
-yy604:
-#line 11659 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-#line 19880 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy605:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 's':	goto yy652;
-	default:	goto yy49;
+		case 'D': goto yy643;
+		default: goto yy35;
 	}
 yy606:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy653;
-	default:	goto yy49;
+		case 'L': goto yy645;
+		default: goto yy35;
 	}
 yy607:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy654;
-	default:	goto yy49;
+		case 'r': goto yy646;
+		default: goto yy35;
 	}
 yy608:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy655;
-	default:	goto yy49;
+		case 'e': goto yy647;
+		default: goto yy35;
 	}
 yy609:
-	yyaccept = 57;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy610;
+		case 'r': goto yy648;
+		default: goto yy35;
 	}
 yy610:
-#line 11669 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-#line 19982 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy611:
-	yyaccept = 58;
+	yyaccept = 66;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy612;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy611;
 	}
+yy611:
+#line 1869 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
+#line 21128 "asn_compiler.hpp"
 yy612:
-#line 11671 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-#line 20056 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'R': goto yy649;
+		default: goto yy35;
+	}
 yy613:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy656;
-	default:	goto yy49;
+		case 'O': goto yy651;
+		default: goto yy35;
 	}
 yy614:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'D':	goto yy658;
-	default:	goto yy101;
+		case 'I': goto yy652;
+		default: goto yy35;
 	}
 yy615:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy659;
-	default:	goto yy49;
+		case 'i': goto yy653;
+		default: goto yy35;
 	}
 yy616:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy660;
-	default:	goto yy49;
+		case 'I': goto yy654;
+		default: goto yy35;
 	}
 yy617:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy661;
-	default:	goto yy49;
+		case 'B': goto yy655;
+		default: goto yy35;
 	}
 yy618:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy663;
-	default:	goto yy49;
+		case 'r': goto yy656;
+		default: goto yy35;
 	}
 yy619:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy664;
-	default:	goto yy49;
+		case 'c': goto yy657;
+		default: goto yy35;
 	}
 yy620:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy665;
-	default:	goto yy49;
+		case 'N': goto yy658;
+		default: goto yy35;
 	}
 yy621:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy666;
-	default:	goto yy49;
+		case 'S': goto yy659;
+		default: goto yy35;
 	}
 yy622:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'S':	goto yy667;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'O': goto yy660;
+		default: goto yy57;
 	}
 yy623:
-	yyaccept = 2;
+	yyaccept = 67;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy668;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy624;
 	}
 yy624:
-	yyaccept = 59;
+#line 1907 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
+#line 21340 "asn_compiler.hpp"
+yy625:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy625;
+		case 'A': goto yy661;
+		default: goto yy35;
 	}
-yy625:
-#line 11604 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-#line 20329 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy626:
-	yyaccept = 60;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy627;
+		case 'T': goto yy662;
+		default: goto yy35;
 	}
 yy627:
-#line 11607 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-#line 20403 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'r': goto yy663;
+		default: goto yy35;
+	}
 yy628:
-	yyaccept = 61;
+	yyaccept = 68;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy629;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy629;
 	}
 yy629:
-#line 11610 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-#line 20477 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1916 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
+#line 21435 "asn_compiler.hpp"
 yy630:
-	yyaccept = 62;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'S':	goto yy669;
-	default:	goto yy631;
+		case 'g': goto yy664;
+		default: goto yy35;
 	}
 yy631:
-#line 11613 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-#line 20551 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy666;
+		default: goto yy35;
+	}
 yy632:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy671;
-	default:	goto yy49;
+		case 't': goto yy667;
+		default: goto yy35;
 	}
 yy633:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy672;
-	default:	goto yy49;
+		case 'r': goto yy668;
+		default: goto yy35;
 	}
 yy634:
-	yyaccept = 63;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy635;
+		case 'Y': goto yy669;
+		default: goto yy35;
 	}
 yy635:
-#line 11618 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-#line 20639 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy636:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy674;
-	default:	goto yy49;
+		case 'N': goto yy670;
+		default: goto yy35;
 	}
-yy637:
-	yyaccept = 2;
+yy636:
+	yyaccept = 69;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy675;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy637;
 	}
+yy637:
+#line 1846 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
+#line 21551 "asn_compiler.hpp"
 yy638:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy676;
-	default:	goto yy49;
+		case 'D': goto yy672;
+		default: goto yy35;
 	}
 yy639:
-	yyaccept = 2;
+	yyaccept = 70;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy678;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy640;
 	}
 yy640:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'r':	goto yy679;
-	default:	goto yy49;
-	}
+#line 1848 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
+#line 21632 "asn_compiler.hpp"
 yy641:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy680;
-	default:	goto yy49;
+		case 'S': goto yy674;
+		default: goto yy35;
 	}
 yy642:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy681;
-	default:	goto yy49;
+		case 'O': goto yy676;
+		default: goto yy35;
 	}
 yy643:
-	yyaccept = 64;
+	yyaccept = 71;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy644;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy644;
 	}
 yy644:
-#line 11637 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-#line 20762 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1858 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
+#line 21720 "asn_compiler.hpp"
 yy645:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy682;
-	default:	goto yy49;
+		case 'I': goto yy677;
+		default: goto yy35;
 	}
 yy646:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy684;
-	default:	goto yy49;
+		case 'i': goto yy678;
+		default: goto yy35;
 	}
 yy647:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy685;
-	default:	goto yy49;
+		case 'd': goto yy679;
+		default: goto yy35;
 	}
 yy648:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy686;
-	default:	goto yy49;
+		case 'i': goto yy680;
+		default: goto yy35;
 	}
 yy649:
-	yyaccept = 2;
+	yyaccept = 72;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy687;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy650;
 	}
 yy650:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'B':	goto yy688;
-	default:	goto yy49;
-	}
+#line 1870 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
+#line 21822 "asn_compiler.hpp"
 yy651:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy689;
-	default:	goto yy49;
+		case 'N': goto yy681;
+		default: goto yy35;
 	}
 yy652:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy690;
-	default:	goto yy49;
+		case 'O': goto yy682;
+		default: goto yy35;
 	}
 yy653:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy691;
-	default:	goto yy49;
+		case 'n': goto yy683;
+		default: goto yy35;
 	}
 yy654:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy692;
-	default:	goto yy49;
+		case 'N': goto yy684;
+		default: goto yy35;
 	}
 yy655:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'O':	goto yy693;
-	default:	goto yy101;
+		case 'E': goto yy685;
+		default: goto yy35;
 	}
 yy656:
-	yyaccept = 65;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy657;
+		case 'i': goto yy686;
+		default: goto yy35;
 	}
 yy657:
-#line 11675 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-#line 20974 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'r': goto yy687;
+		default: goto yy35;
+	}
 yy658:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy694;
-	default:	goto yy49;
+		case 'I': goto yy688;
+		default: goto yy35;
 	}
 yy659:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy695;
-	default:	goto yy49;
+		case 't': goto yy689;
+		default: goto yy35;
 	}
 yy660:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy696;
-	default:	goto yy49;
+		case 'I': goto yy690;
+		default: goto yy35;
 	}
 yy661:
-	yyaccept = 66;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy662;
+		case 'Y': goto yy691;
+		default: goto yy35;
 	}
 yy662:
-#line 11684 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-#line 21069 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy663:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy697;
-	default:	goto yy49;
+		case 'I': goto yy693;
+		default: goto yy35;
 	}
-yy664:
-	yyaccept = 2;
+yy663:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy699;
-	default:	goto yy49;
+		case 'i': goto yy694;
+		default: goto yy35;
 	}
-yy665:
-	yyaccept = 2;
+yy664:
+	yyaccept = 73;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy700;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy665;
 	}
+yy665:
+#line 1919 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
+#line 21987 "asn_compiler.hpp"
 yy666:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy701;
-	default:	goto yy49;
+		case 't': goto yy695;
+		default: goto yy35;
 	}
 yy667:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy702;
-	default:	goto yy49;
+		case 'r': goto yy696;
+		default: goto yy35;
 	}
 yy668:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy703;
-	default:	goto yy49;
+		case 'i': goto yy697;
+		default: goto yy35;
 	}
 yy669:
-	yyaccept = 67;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy670;
+		case 'N': goto yy698;
+		default: goto yy35;
 	}
 yy670:
-#line 11614 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-#line 21185 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy671:
-	yyaccept = 2;
+	yyaccept = 74;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy705;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy671;
 	}
+yy671:
+#line 1835 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
+#line 22089 "asn_compiler.hpp"
 yy672:
-	yyaccept = 68;
+	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy673;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy673;
 	}
 yy673:
-#line 11616 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-#line 21266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1847 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
+#line 22163 "asn_compiler.hpp"
 yy674:
-	yyaccept = 2;
+	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy707;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy675;
 	}
 yy675:
-	yyaccept = 2;
+#line 1852 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
+#line 22237 "asn_compiler.hpp"
+yy676:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy709;
-	default:	goto yy49;
+		case 'N': goto yy699;
+		default: goto yy35;
 	}
-yy676:
-	yyaccept = 69;
+yy677:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy677;
+		case 'T': goto yy700;
+		default: goto yy35;
 	}
-yy677:
-#line 11626 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-#line 21354 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy678:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy710;
-	default:	goto yy49;
+		case 'n': goto yy701;
+		default: goto yy35;
 	}
 yy679:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy711;
-	default:	goto yy49;
+		case 'T': goto yy702;
+		default: goto yy35;
 	}
 yy680:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'd':	goto yy712;
-	default:	goto yy49;
+		case 'n': goto yy703;
+		default: goto yy35;
 	}
 yy681:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy713;
-	default:	goto yy49;
+		case 'S': goto yy704;
+		default: goto yy35;
 	}
 yy682:
-	yyaccept = 70;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy683;
+		case 'N': goto yy706;
+		default: goto yy35;
 	}
 yy683:
-#line 11638 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-#line 21456 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'g': goto yy708;
+		default: goto yy35;
+	}
 yy684:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy714;
-	default:	goto yy49;
+		case 'I': goto yy710;
+		default: goto yy35;
 	}
 yy685:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy715;
-	default:	goto yy49;
+		case 'R': goto yy711;
+		default: goto yy35;
 	}
 yy686:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy716;
-	default:	goto yy49;
+		case 'n': goto yy713;
+		default: goto yy35;
 	}
 yy687:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy717;
-	default:	goto yy49;
+		case 'i': goto yy714;
+		default: goto yy35;
 	}
 yy688:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy718;
-	default:	goto yy49;
+		case 'T': goto yy715;
+		default: goto yy35;
 	}
 yy689:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy719;
-	default:	goto yy49;
+		case 'r': goto yy716;
+		default: goto yy35;
 	}
 yy690:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy720;
-	default:	goto yy49;
+		case 'D': goto yy717;
+		default: goto yy35;
 	}
 yy691:
-	yyaccept = 2;
+	yyaccept = 77;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy721;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy692;
 	}
 yy692:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 't':	goto yy722;
-	default:	goto yy49;
-	}
+#line 1911 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
+#line 22416 "asn_compiler.hpp"
 yy693:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy723;
-	default:	goto yy49;
+		case 'F': goto yy719;
+		default: goto yy35;
 	}
 yy694:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy724;
-	default:	goto yy49;
+		case 'n': goto yy720;
+		default: goto yy35;
 	}
 yy695:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy726;
-	default:	goto yy49;
+		case 'r': goto yy721;
+		default: goto yy35;
 	}
 yy696:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy727;
-	default:	goto yy49;
+		case 'i': goto yy722;
+		default: goto yy35;
 	}
 yy697:
-	yyaccept = 71;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy698;
+		case 'n': goto yy723;
+		default: goto yy35;
 	}
 yy698:
-#line 11687 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-#line 21621 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy724;
+		default: goto yy35;
+	}
 yy699:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy728;
-	default:	goto yy49;
+		case 'T': goto yy725;
+		default: goto yy35;
 	}
 yy700:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy729;
-	default:	goto yy49;
+		case 'Y': goto yy726;
+		default: goto yy35;
 	}
 yy701:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy730;
-	default:	goto yy49;
+		case 'g': goto yy728;
+		default: goto yy35;
 	}
 yy702:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy731;
-	default:	goto yy49;
+		case 'i': goto yy730;
+		default: goto yy35;
 	}
 yy703:
-	yyaccept = 72;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy704;
+		case 'g': goto yy731;
+		default: goto yy35;
 	}
 yy704:
-#line 11603 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-#line 21723 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy705:
-	yyaccept = 73;
+	yyaccept = 78;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy706;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy705;
 	}
+yy705:
+#line 1876 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
+#line 22567 "asn_compiler.hpp"
 yy706:
-#line 11615 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-#line 21797 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy707:
-	yyaccept = 74;
+	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy708;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy707;
 	}
+yy707:
+#line 1878 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
+#line 22641 "asn_compiler.hpp"
 yy708:
-#line 11620 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-#line 21871 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy709:
-	yyaccept = 2;
+	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy732;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy709;
 	}
+yy709:
+#line 1879 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
+#line 22715 "asn_compiler.hpp"
 yy710:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy733;
-	default:	goto yy49;
+		case 'T': goto yy733;
+		default: goto yy35;
 	}
 yy711:
-	yyaccept = 2;
+	yyaccept = 81;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy734;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy712;
 	}
 yy712:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'T':	goto yy735;
-	default:	goto yy49;
-	}
+#line 1883 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
+#line 22796 "asn_compiler.hpp"
 yy713:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy736;
-	default:	goto yy49;
+		case 'g': goto yy734;
+		default: goto yy35;
 	}
 yy714:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy737;
-	default:	goto yy49;
+		case 'p': goto yy736;
+		default: goto yy35;
 	}
 yy715:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy739;
-	default:	goto yy49;
+		case 'Y': goto yy737;
+		default: goto yy35;
 	}
 yy716:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy741;
-	default:	goto yy49;
+		case 'i': goto yy739;
+		default: goto yy35;
 	}
 yy717:
-	yyaccept = 2;
+	yyaccept = 82;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy743;
-	default:	goto yy49;
+		case '-': goto yy740;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy718;
 	}
 yy718:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'R':	goto yy744;
-	default:	goto yy49;
-	}
+#line 1899 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
+#line 22898 "asn_compiler.hpp"
 yy719:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy746;
-	default:	goto yy49;
+		case 'I': goto yy741;
+		default: goto yy35;
 	}
 yy720:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy747;
-	default:	goto yy49;
+		case 'g': goto yy742;
+		default: goto yy35;
 	}
 yy721:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy748;
-	default:	goto yy49;
+		case 'i': goto yy744;
+		default: goto yy35;
 	}
 yy722:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy749;
-	default:	goto yy49;
+		case 'n': goto yy745;
+		default: goto yy35;
 	}
 yy723:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy750;
-	default:	goto yy49;
+		case 'g': goto yy746;
+		default: goto yy35;
 	}
 yy724:
-	yyaccept = 75;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy725;
+		case 'A': goto yy748;
+		default: goto yy35;
 	}
 yy725:
-#line 11679 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-#line 22050 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy726:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy752;
-	default:	goto yy49;
+		case 'R': goto yy749;
+		default: goto yy35;
 	}
-yy727:
-	yyaccept = 2;
+yy726:
+	yyaccept = 83;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy753;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy727;
 	}
+yy727:
+#line 1862 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
+#line 23021 "asn_compiler.hpp"
 yy728:
-	yyaccept = 2;
+	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy754;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy729;
 	}
 yy729:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'i':	goto yy755;
-	default:	goto yy49;
-	}
+#line 1867 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
+#line 23095 "asn_compiler.hpp"
 yy730:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy756;
-	default:	goto yy49;
+		case 'm': goto yy750;
+		default: goto yy35;
 	}
 yy731:
-	yyaccept = 2;
+	yyaccept = 85;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy757;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy732;
 	}
 yy732:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'T':	goto yy758;
-	default:	goto yy49;
-	}
+#line 1868 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
+#line 23176 "asn_compiler.hpp"
 yy733:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy759;
-	default:	goto yy49;
+		case 'Y': goto yy751;
+		default: goto yy35;
 	}
 yy734:
-	yyaccept = 2;
+	yyaccept = 86;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy761;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy735;
 	}
 yy735:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'i':	goto yy763;
-	default:	goto yy49;
-	}
+#line 1885 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
+#line 23257 "asn_compiler.hpp"
 yy736:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy764;
-	default:	goto yy49;
+		case 't': goto yy753;
+		default: goto yy35;
 	}
 yy737:
-	yyaccept = 76;
+	yyaccept = 87;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy738;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy738;
 	}
 yy738:
-#line 11644 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-#line 22201 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1894 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
+#line 23338 "asn_compiler.hpp"
 yy739:
-	yyaccept = 77;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy740;
+		case 'n': goto yy754;
+		default: goto yy35;
 	}
 yy740:
-#line 11646 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-#line 22275 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy755;
+		default: goto yy57;
+	}
 yy741:
-	yyaccept = 78;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy742;
+		case 'E': goto yy756;
+		default: goto yy35;
 	}
 yy742:
-#line 11647 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-#line 22349 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy743:
-	yyaccept = 2;
+	yyaccept = 88;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy766;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy743;
 	}
+yy743:
+#line 1909 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
+#line 23494 "asn_compiler.hpp"
 yy744:
-	yyaccept = 79;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy745;
+		case 'n': goto yy757;
+		default: goto yy35;
 	}
 yy745:
-#line 11651 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-#line 22430 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy746:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy767;
-	default:	goto yy49;
+		case 'g': goto yy758;
+		default: goto yy35;
 	}
-yy747:
-	yyaccept = 2;
+yy746:
+	yyaccept = 89;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'p':	goto yy769;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy747;
 	}
+yy747:
+#line 1921 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
+#line 23582 "asn_compiler.hpp"
 yy748:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy770;
-	default:	goto yy49;
+		case 'X': goto yy760;
+		default: goto yy35;
 	}
 yy749:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy772;
-	default:	goto yy49;
+		case 'O': goto yy762;
+		default: goto yy35;
 	}
 yy750:
-	yyaccept = 80;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy773;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy751;
+		case 'e': goto yy763;
+		default: goto yy35;
 	}
 yy751:
-#line 11667 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-#line 22532 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy752:
-	yyaccept = 2;
+	yyaccept = 90;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy774;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy752;
 	}
+yy752:
+#line 1882 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
+#line 23677 "asn_compiler.hpp"
 yy753:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy775;
-	default:	goto yy49;
+		case 'o': goto yy765;
+		default: goto yy35;
 	}
 yy754:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy777;
-	default:	goto yy49;
+		case 'g': goto yy766;
+		default: goto yy35;
 	}
 yy755:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy778;
-	default:	goto yy49;
+		case 'R': goto yy768;
+		default: goto yy35;
 	}
 yy756:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy779;
-	default:	goto yy49;
+		case 'R': goto yy769;
+		default: goto yy35;
 	}
 yy757:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy781;
-	default:	goto yy49;
+		case 'g': goto yy771;
+		default: goto yy35;
 	}
 yy758:
-	yyaccept = 2;
+	yyaccept = 91;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy782;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy759;
 	}
 yy759:
-	yyaccept = 81;
+#line 1920 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
+#line 23786 "asn_compiler.hpp"
+yy760:
+	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy760;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy761;
 	}
-yy760:
-#line 11630 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-#line 22655 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy761:
-	yyaccept = 82;
+#line 1832 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
+#line 23860 "asn_compiler.hpp"
+yy762:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy762;
+		case 'L': goto yy773;
+		default: goto yy35;
 	}
-yy762:
-#line 11635 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-#line 22729 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy763:
-	yyaccept = 2;
+	yyaccept = 93;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'm':	goto yy783;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy764;
 	}
 yy764:
-	yyaccept = 83;
+#line 1866 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
+#line 23941 "asn_compiler.hpp"
+yy765:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy765;
+		case 'r': goto yy775;
+		default: goto yy35;
 	}
-yy765:
-#line 11636 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-#line 22810 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy766:
-	yyaccept = 2;
+	yyaccept = 94;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy784;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy767;
 	}
 yy767:
-	yyaccept = 84;
+#line 1896 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
+#line 24022 "asn_compiler.hpp"
+yy768:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy768;
+		case 'I': goto yy777;
+		default: goto yy35;
 	}
-yy768:
-#line 11653 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-#line 22891 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy769:
-	yyaccept = 2;
+	yyaccept = 95;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy786;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy770;
 	}
 yy770:
-	yyaccept = 85;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy771;
-	}
+#line 1913 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
+#line 24103 "asn_compiler.hpp"
 yy771:
-#line 11662 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-#line 22972 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy772:
-	yyaccept = 2;
+	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy787;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy772;
 	}
+yy772:
+#line 1917 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
+#line 24177 "asn_compiler.hpp"
 yy773:
-	yych = *++context_.cursor;
-	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'I':	goto yy788;
-	default:	goto yy101;
-	}
-yy774:
-	yyaccept = 2;
+	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy789;
-	default:	goto yy49;
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy774;
 	}
+yy774:
+#line 1856 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
+#line 24251 "asn_compiler.hpp"
 yy775:
-	yyaccept = 86;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy776;
+	yyaccept = 98;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy776;
 	}
 yy776:
-#line 11677 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-#line 23128 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1887 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
+#line 24325 "asn_compiler.hpp"
 yy777:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'n':	goto yy790;
-	default:	goto yy49;
+	yyaccept = 99;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy78;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy778;
 	}
 yy778:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'g':	goto yy791;
-	default:	goto yy49;
-	}
-yy779:
-	yyaccept = 87;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy780;
-	}
-yy780:
-#line 11689 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-#line 23216 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy781:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'X':	goto yy793;
-	default:	goto yy49;
-	}
-yy782:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'O':	goto yy795;
-	default:	goto yy49;
-	}
-yy783:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'e':	goto yy796;
-	default:	goto yy49;
-	}
-yy784:
-	yyaccept = 88;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy785;
-	}
-yy785:
-#line 11650 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-#line 23311 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy786:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'o':	goto yy798;
-	default:	goto yy49;
-	}
-yy787:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'g':	goto yy799;
-	default:	goto yy49;
-	}
-yy788:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'R':	goto yy801;
-	default:	goto yy49;
-	}
-yy789:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'R':	goto yy802;
-	default:	goto yy49;
-	}
-yy790:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'g':	goto yy804;
-	default:	goto yy49;
-	}
-yy791:
-	yyaccept = 89;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy792;
-	}
-yy792:
-#line 11688 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-#line 23420 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy793:
-	yyaccept = 90;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy794;
-	}
-yy794:
-#line 11600 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-#line 23494 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy795:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'L':	goto yy806;
-	default:	goto yy49;
-	}
-yy796:
-	yyaccept = 91;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy797;
-	}
-yy797:
-#line 11634 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-#line 23575 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy798:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'r':	goto yy808;
-	default:	goto yy49;
-	}
-yy799:
-	yyaccept = 92;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy800;
-	}
-yy800:
-#line 11664 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-#line 23656 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy801:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'I':	goto yy810;
-	default:	goto yy49;
-	}
-yy802:
-	yyaccept = 93;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy803;
-	}
-yy803:
-#line 11681 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-#line 23737 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy804:
-	yyaccept = 94;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy805;
-	}
-yy805:
-#line 11685 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-#line 23811 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy806:
-	yyaccept = 95;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy807;
-	}
-yy807:
-#line 11624 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-#line 23885 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy808:
-	yyaccept = 96;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy809;
-	}
-yy809:
-#line 11655 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-#line 23959 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy810:
-	yyaccept = 97;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy811;
-	}
-yy811:
-#line 11668 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1900 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
-#line 24033 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 24399 "asn_compiler.hpp"
 }
-#line 11743 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1975 "asn_compiler.yacc"
 
     }
 }
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 1801155..5282fe8 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -61,7 +61,7 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
         }
         else if (absl::holds_alternative<ObjectClassAssignment>(assignment.specific))
         {
-            throw("Compiler Error: ObjectClassAssignment should be resolved: " + assignment.name);
+            throw std::runtime_error("Compiler Error: ObjectClassAssignment should be resolved: " + assignment.name);
         }
         else
         {
@@ -200,6 +200,24 @@ std::string create_output_file(const Asn1Tree& tree, const std::string& fwd_file
     return output;
 }
 
+bool write_file(const std::string& filename, const std::string& content)
+{
+    std::ofstream file(filename);
+    if (!file.good())
+    {
+        std::cerr << "Could not create output file: " + filename + "\n";
+        return false;
+    }
+    file << content;
+    file.close();
+    if (!file.good())
+    {
+        std::cerr << "Could not write output file: " + filename + "\n";
+        return false;
+    }
+    return true;
+}
+
 int main(int argc, char** argv)
 {
     if (argc < 3)
@@ -222,6 +240,11 @@ int main(int argc, char** argv)
             }
 
             std::string buffer(std::istreambuf_iterator<char>(input_file), {});
+            if (buffer.find('\0') != std::string::npos)
+            {
+                std::cerr << "Input file is not text: " << input_filename << "\n";
+                return -1;
+            }
             context.cursor = buffer.c_str();
             context.location.initialize(&input_filename);
 
@@ -238,25 +261,6 @@ int main(int argc, char** argv)
         const std::string& fwd_filame      = std::string(argv[argc - 1]) + ".fwd.hpp";
         const std::string& detail_filame   = std::string(argv[argc - 1]) + ".detail.hpp";
 
-        std::ofstream output_file(output_filename);
-        std::ofstream fwd_output_file(fwd_filame);
-        std::ofstream detail_output_file(detail_filame);
-        if (!output_file.good())
-        {
-            std::cerr << "Could not create output file: " + output_filename + "\n";
-            return -1;
-        }
-        if (!fwd_output_file.good())
-        {
-            std::cerr << "Could not create output file: " + fwd_filame + "\n";
-            return -1;
-        }
-        if (!detail_output_file.good())
-        {
-            std::cerr << "Could not create output file: " + detail_filame + "\n";
-            return -1;
-        }
-
         resolve_tagging_environment(context.asn1_tree);
         resolve_numbers(context.asn1_tree);
         resolve_parameters(context.asn1_tree);
@@ -279,10 +283,14 @@ int main(int argc, char** argv)
             module.assignments = reorder_assignments(module.assignments, context.asn1_tree, module);
         }
 
-        output_file << create_output_file(context.asn1_tree, fwd_filame, detail_filame);
-        fwd_output_file << create_fwd_body(context.asn1_tree);
-        detail_output_file << create_detail_body(context.asn1_tree);
+        const std::string& output = create_output_file(context.asn1_tree, fwd_filame, detail_filame);
+        const std::string& fwd    = create_fwd_body(context.asn1_tree);
+        const std::string& detail = create_detail_body(context.asn1_tree);
 
+        if (!write_file(output_filename, output) || !write_file(fwd_filame, fwd) || !write_file(detail_filame, detail))
+        {
+            return -1;
+        }
         return 0;
     }
     catch (const std::exception& e)
-- 
2.43.0


From 1bbb6ffad04487f0ad3d03cb3172cb4e2d5a87f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 50/59] fix: arguments, extension alternatives and tag numbers
 given by reference keep their order and number

Parameters were given the arguments in reverse, alternatives after the extension marker of a CHOICE were put before
the others (and got their automatic tags), tag numbers given as a reference to a value were 0 and large ones truncated.
---
 src/compiler/Identifier.cpp                   |   3 +-
 src/compiler/ResolveType.cpp                  |  23 +
 src/compiler/asn_compiler.yacc                |  17 +-
 src/compiler/autogen_copy/asn_compiler.hpp    | 667 +++++++++---------
 .../fast_ber/compiler/CompilerTypes.hpp       |   6 +-
 5 files changed, 356 insertions(+), 360 deletions(-)

diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index 7213a7a..5b8d6b4 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -452,7 +452,8 @@ void resolve_tagging_environment(Type& type, TaggingMode tagging_default)
 
 Type automatically_tagged(const Type& type, int tag_number)
 {
-    return BuiltinType{PrefixedType(TaggedType{Tag{Class::context_specific, tag_number}, TaggingMode::implicit, type})};
+    return BuiltinType{
+        PrefixedType(TaggedType{Tag{Class::context_specific, tag_number, {}}, TaggingMode::implicit, type})};
 }
 
 void apply_automatic_tags(Type& type)
diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index a9411a5..72431b5 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -463,6 +463,19 @@ void resolve_numbers(const Asn1Tree& tree, const Module& module, Type& type)
             }
         }
     }
+    else if (is_prefixed(type))
+    {
+        Tag& tag = absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->tag;
+        if (!tag.reference.empty())
+        {
+            const int64_t number = resolve_number(tree, module, tag.reference);
+            if (number < 0 || number > std::numeric_limits<int>::max())
+            {
+                throw std::runtime_error("Tag number out of range: " + module.module_reference + "." + tag.reference);
+            }
+            tag.tag_number = static_cast<int>(number);
+        }
+    }
     for_each_child(type, [&](Type& child) { resolve_numbers(tree, module, child); });
 }
 
@@ -480,6 +493,16 @@ void resolve_numbers(Asn1Tree& tree)
             {
                 resolve_numbers(tree, module, value(assignment).type);
             }
+            else if (absl::holds_alternative<ObjectClassAssignment>(assignment.specific))
+            {
+                for (ClassField& field : object_class(assignment).fields)
+                {
+                    if (absl::holds_alternative<FixedTypeValueField>(field.field))
+                    {
+                        resolve_numbers(tree, module, absl::get<FixedTypeValueField>(field.field).type);
+                    }
+                }
+            }
         }
     }
 }
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index f6998df..fe9ee07 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -286,7 +286,7 @@
 %type<std::vector<Type>> ActualParameterList;
 %type<Type>              ActualParameter;
 %type<Class>             Class;
-%type<int>               ClassNumber;
+%type<Tag>               ClassNumber;
 %type<NamedType>         NamedType;
 %type<NamedNumber>       NamedNumber;
 %type<std::vector<NamedNumber>> NamedNumberList;
@@ -926,7 +926,7 @@ ActualParameterList:
     ActualParameter 
     { $$.push_back($1); }
 |   ActualParameter "," ActualParameterList
-    { $$ = $3; $$.push_back($1); }
+    { $$ = $3; $$.insert($$.begin(), $1); }
 
 ActualParameter:
     Type
@@ -1315,7 +1315,7 @@ RootAlternativeTypeList:
 |   AlternativeTypeList "," ELIPSIS
     { $$ = $1; }
 |   AlternativeTypeList "," ELIPSIS "," AlternativeTypeList
-    { $$ = $1; $$.insert($$.begin(), $5.begin(), $5.end()); }
+    { $$ = $1; $$.insert($$.end(), $5.begin(), $5.end()); }
 
 AlternativeTypeList:
     NamedType
@@ -1343,7 +1343,7 @@ TaggedType:
 
 Tag:
     "[" EncodingReference Class ClassNumber "]"
-    { $$ = Tag{ $3, $4 }; }
+    { $$ = $4; $$.class_ = $3; }
 
 EncodingReference:
     encodingreference ":"
@@ -1351,8 +1351,13 @@ EncodingReference:
     
 ClassNumber:
     number
-    { $$ = $1; }
-|   DefinedValue;
+    { if ($1 > std::numeric_limits<int>::max())
+      {
+        throw syntax_error(@1, "tag number out of range");
+      }
+      $$ = Tag{ Class::context_specific, static_cast<int>($1), {} }; }
+|   DefinedValue
+    { $$ = Tag{ Class::context_specific, 0, $1.reference }; }
 
 Class:
     UNIVERSAL
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index a2e8013..1cc47a5 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -790,6 +790,7 @@ namespace yy {
       char dummy42[sizeof (SetType)];
 
       // Tag
+      // ClassNumber
       char dummy43[sizeof (Tag)];
 
       // TaggedType
@@ -823,13 +824,10 @@ namespace yy {
       // realnumber
       char dummy51[sizeof (double)];
 
-      // ClassNumber
-      char dummy52[sizeof (int)];
-
       // number
       // negativenumber
       // SignedNumber
-      char dummy53[sizeof (int64_t)];
+      char dummy52[sizeof (int64_t)];
 
       // bstring
       // xmlbstring
@@ -857,51 +855,51 @@ namespace yy {
       // modulereference
       // objectclassreference
       // word
-      char dummy54[sizeof (std::string)];
+      char dummy53[sizeof (std::string)];
 
       // AssignmentList
-      char dummy55[sizeof (std::vector<Assignment>)];
+      char dummy54[sizeof (std::vector<Assignment>)];
 
       // FieldSpecList
       // FieldSpec
       // TypeFieldSpec
       // FixedTypeValueFieldSpec
-      char dummy56[sizeof (std::vector<ClassField>)];
+      char dummy55[sizeof (std::vector<ClassField>)];
 
       // Exports
-      char dummy57[sizeof (std::vector<Export>)];
+      char dummy56[sizeof (std::vector<Export>)];
 
       // Imports
       // SymbolsImported
       // SymbolsFromModuleList
-      char dummy58[sizeof (std::vector<Import>)];
+      char dummy57[sizeof (std::vector<Import>)];
 
       // NamedNumberList
-      char dummy59[sizeof (std::vector<NamedNumber>)];
+      char dummy58[sizeof (std::vector<NamedNumber>)];
 
       // AlternativeTypeLists
       // RootAlternativeTypeList
       // AlternativeTypeList
-      char dummy60[sizeof (std::vector<NamedType>)];
+      char dummy59[sizeof (std::vector<NamedType>)];
 
       // ObjectIdentifierValue
       // ObjIdComponentsList
-      char dummy61[sizeof (std::vector<ObjectIdComponentValue>)];
+      char dummy60[sizeof (std::vector<ObjectIdComponentValue>)];
 
       // ParameterList
       // ParameterSeries
-      char dummy62[sizeof (std::vector<Parameter>)];
+      char dummy61[sizeof (std::vector<Parameter>)];
 
       // ActualParameterList
-      char dummy63[sizeof (std::vector<Type>)];
+      char dummy62[sizeof (std::vector<Type>)];
 
       // SequenceOfValues
-      char dummy64[sizeof (std::vector<Value>)];
+      char dummy63[sizeof (std::vector<Value>)];
 
       // FieldNameList
       // OneOrManyTypeFieldReference
       // SymbolList
-      char dummy65[sizeof (std::vector<std::string>)];
+      char dummy64[sizeof (std::vector<std::string>)];
     };
 
     /// The size of the largest semantic type.
@@ -1722,6 +1720,7 @@ namespace yy {
         break;
 
       case symbol_kind::S_Tag: // Tag
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< Tag > (std::move (that.value));
         break;
 
@@ -1764,10 +1763,6 @@ namespace yy {
         value.move< double > (std::move (that.value));
         break;
 
-      case symbol_kind::S_ClassNumber: // ClassNumber
-        value.move< int > (std::move (that.value));
-        break;
-
       case symbol_kind::S_number: // number
       case symbol_kind::S_negativenumber: // negativenumber
       case symbol_kind::S_SignedNumber: // SignedNumber
@@ -2595,20 +2590,6 @@ namespace yy {
       {}
 #endif
 
-#if 201103L <= YY_CPLUSPLUS
-      basic_symbol (typename Base::kind_type t, int&& v, location_type&& l)
-        : Base (t)
-        , value (std::move (v))
-        , location (std::move (l))
-      {}
-#else
-      basic_symbol (typename Base::kind_type t, const int& v, const location_type& l)
-        : Base (t)
-        , value (v)
-        , location (l)
-      {}
-#endif
-
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, int64_t&& v, location_type&& l)
         : Base (t)
@@ -3004,6 +2985,7 @@ switch (yykind)
         break;
 
       case symbol_kind::S_Tag: // Tag
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.template destroy< Tag > ();
         break;
 
@@ -3046,10 +3028,6 @@ switch (yykind)
         value.template destroy< double > ();
         break;
 
-      case symbol_kind::S_ClassNumber: // ClassNumber
-        value.template destroy< int > ();
-        break;
-
       case symbol_kind::S_number: // number
       case symbol_kind::S_negativenumber: // negativenumber
       case symbol_kind::S_SignedNumber: // SignedNumber
@@ -6183,6 +6161,7 @@ switch (yykind)
         break;
 
       case symbol_kind::S_Tag: // Tag
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.copy< Tag > (YY_MOVE (that.value));
         break;
 
@@ -6225,10 +6204,6 @@ switch (yykind)
         value.copy< double > (YY_MOVE (that.value));
         break;
 
-      case symbol_kind::S_ClassNumber: // ClassNumber
-        value.copy< int > (YY_MOVE (that.value));
-        break;
-
       case symbol_kind::S_number: // number
       case symbol_kind::S_negativenumber: // negativenumber
       case symbol_kind::S_SignedNumber: // SignedNumber
@@ -6539,6 +6514,7 @@ switch (yykind)
         break;
 
       case symbol_kind::S_Tag: // Tag
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< Tag > (YY_MOVE (s.value));
         break;
 
@@ -6581,10 +6557,6 @@ switch (yykind)
         value.move< double > (YY_MOVE (s.value));
         break;
 
-      case symbol_kind::S_ClassNumber: // ClassNumber
-        value.move< int > (YY_MOVE (s.value));
-        break;
-
       case symbol_kind::S_number: // number
       case symbol_kind::S_negativenumber: // negativenumber
       case symbol_kind::S_SignedNumber: // SignedNumber
@@ -7102,6 +7074,7 @@ namespace yy {
         break;
 
       case symbol_kind::S_Tag: // Tag
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.YY_MOVE_OR_COPY< Tag > (YY_MOVE (that.value));
         break;
 
@@ -7144,10 +7117,6 @@ namespace yy {
         value.YY_MOVE_OR_COPY< double > (YY_MOVE (that.value));
         break;
 
-      case symbol_kind::S_ClassNumber: // ClassNumber
-        value.YY_MOVE_OR_COPY< int > (YY_MOVE (that.value));
-        break;
-
       case symbol_kind::S_number: // number
       case symbol_kind::S_negativenumber: // negativenumber
       case symbol_kind::S_SignedNumber: // SignedNumber
@@ -7442,6 +7411,7 @@ namespace yy {
         break;
 
       case symbol_kind::S_Tag: // Tag
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< Tag > (YY_MOVE (that.value));
         break;
 
@@ -7484,10 +7454,6 @@ namespace yy {
         value.move< double > (YY_MOVE (that.value));
         break;
 
-      case symbol_kind::S_ClassNumber: // ClassNumber
-        value.move< int > (YY_MOVE (that.value));
-        break;
-
       case symbol_kind::S_number: // number
       case symbol_kind::S_negativenumber: // negativenumber
       case symbol_kind::S_SignedNumber: // SignedNumber
@@ -7782,6 +7748,7 @@ namespace yy {
         break;
 
       case symbol_kind::S_Tag: // Tag
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.copy< Tag > (that.value);
         break;
 
@@ -7824,10 +7791,6 @@ namespace yy {
         value.copy< double > (that.value);
         break;
 
-      case symbol_kind::S_ClassNumber: // ClassNumber
-        value.copy< int > (that.value);
-        break;
-
       case symbol_kind::S_number: // number
       case symbol_kind::S_negativenumber: // negativenumber
       case symbol_kind::S_SignedNumber: // SignedNumber
@@ -8121,6 +8084,7 @@ namespace yy {
         break;
 
       case symbol_kind::S_Tag: // Tag
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< Tag > (that.value);
         break;
 
@@ -8163,10 +8127,6 @@ namespace yy {
         value.move< double > (that.value);
         break;
 
-      case symbol_kind::S_ClassNumber: // ClassNumber
-        value.move< int > (that.value);
-        break;
-
       case symbol_kind::S_number: // number
       case symbol_kind::S_negativenumber: // negativenumber
       case symbol_kind::S_SignedNumber: // SignedNumber
@@ -8705,6 +8665,7 @@ namespace yy {
         break;
 
       case symbol_kind::S_Tag: // Tag
+      case symbol_kind::S_ClassNumber: // ClassNumber
         yylhs.value.emplace< Tag > ();
         break;
 
@@ -8747,10 +8708,6 @@ namespace yy {
         yylhs.value.emplace< double > ();
         break;
 
-      case symbol_kind::S_ClassNumber: // ClassNumber
-        yylhs.value.emplace< int > ();
-        break;
-
       case symbol_kind::S_number: // number
       case symbol_kind::S_negativenumber: // negativenumber
       case symbol_kind::S_SignedNumber: // SignedNumber
@@ -9190,7 +9147,7 @@ namespace yy {
     break;
 
   case 203: // ActualParameterList: ActualParameter "," ActualParameterList
-    { yylhs.value.as < std::vector<Type> > () = yystack_[0].value.as < std::vector<Type> > (); yylhs.value.as < std::vector<Type> > ().push_back(yystack_[2].value.as < Type > ()); }
+    { yylhs.value.as < std::vector<Type> > () = yystack_[0].value.as < std::vector<Type> > (); yylhs.value.as < std::vector<Type> > ().insert(yylhs.value.as < std::vector<Type> > ().begin(), yystack_[2].value.as < Type > ()); }
     break;
 
   case 204: // ActualParameter: Type
@@ -9682,7 +9639,7 @@ namespace yy {
     break;
 
   case 343: // RootAlternativeTypeList: AlternativeTypeList "," "..." "," AlternativeTypeList
-    { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
+    { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().end(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
     break;
 
   case 344: // AlternativeTypeList: NamedType
@@ -9710,11 +9667,19 @@ namespace yy {
     break;
 
   case 351: // Tag: "[" EncodingReference Class ClassNumber "]"
-    { yylhs.value.as < Tag > () = Tag{ yystack_[2].value.as < Class > (), yystack_[1].value.as < int > () }; }
+    { yylhs.value.as < Tag > () = yystack_[1].value.as < Tag > (); yylhs.value.as < Tag > ().class_ = yystack_[2].value.as < Class > (); }
     break;
 
   case 354: // ClassNumber: number
-    { yylhs.value.as < int > () = yystack_[0].value.as < int64_t > (); }
+    { if (yystack_[0].value.as < int64_t > () > std::numeric_limits<int>::max())
+      {
+        throw syntax_error(yystack_[0].location, "tag number out of range");
+      }
+      yylhs.value.as < Tag > () = Tag{ Class::context_specific, static_cast<int>(yystack_[0].value.as < int64_t > ()), {} }; }
+    break;
+
+  case 355: // ClassNumber: DefinedValue
+    { yylhs.value.as < Tag > () = Tag{ Class::context_specific, 0, yystack_[0].value.as < DefinedValue > ().reference }; }
     break;
 
   case 356: // Class: UNIVERSAL
@@ -11929,29 +11894,29 @@ namespace yy {
     1240,  1243,  1246,  1249,  1254,  1256,  1260,  1263,  1266,  1269,
     1271,  1273,  1275,  1287,  1289,  1293,  1295,  1299,  1301,  1305,
     1309,  1313,  1315,  1317,  1321,  1323,  1330,  1333,  1337,  1339,
-    1341,  1345,  1349,  1350,  1353,  1355,  1358,  1360,  1362,  1364,
-    1374,  1377,  1379,  1383,  1385,  1389,  1391,  1393,  1397,  1401,
-    1403,  1406,  1410,  1422,  1425,  1431,  1434,  1435,  1438,  1439,
-    1442,  1448,  1455,  1461,  1464,  1467,  1470,  1473,  1476,  1479,
-    1481,  1485,  1487,  1489,  1491,  1493,  1495,  1497,  1499,  1501,
-    1503,  1505,  1507,  1509,  1513,  1517,  1519,  1523,  1525,  1527,
-    1529,  1531,  1533,  1535,  1537,  1541,  1545,  1546,  1549,  1552,
-    1553,  1554,  1557,  1558,  1561,  1562,  1565,  1568,  1569,  1572,
-    1575,  1576,  1579,  1582,  1585,  1586,  1589,  1590,  1593,  1595,
-    1598,  1599,  1600,  1601,  1602,  1603,  1604,  1605,  1606,  1612,
-    1615,  1617,  1619,  1621,  1623,  1625,  1627,  1629,  1631,  1635,
-    1638,  1641,  1644,  1645,  1648,  1649,  1652,  1653,  1656,  1657,
-    1660,  1663,  1666,  1669,  1670,  1673,  1675,  1676,  1677,  1678,
-    1681,  1682,  1685,  1688,  1691,  1692,  1695,  1696,  1697,  1698,
-    1701,  1704,  1707,  1708,  1711,  1712,  1713,  1716,  1720,  1724,
-    1728,  1732,  1736,  1737,  1738,  1739,  1740,  1741,  1742,  1743,
-    1744,  1745,  1746,  1747,  1748,  1749,  1750,  1751,  1752,  1753,
-    1754,  1755,  1756,  1757,  1758,  1759,  1760,  1761,  1762,  1763,
-    1764,  1765,  1766,  1767,  1768,  1769,  1770,  1771,  1772,  1773,
-    1774,  1775,  1776,  1777,  1778,  1779,  1780,  1781,  1782,  1783,
-    1784,  1785,  1786,  1787,  1788,  1789,  1790,  1791,  1792,  1793,
-    1794,  1795,  1796,  1797,  1798,  1799,  1800,  1801,  1802,  1803,
-    1804,  1805,  1806,  1807,  1808,  1809,  1810,  1811,  1812
+    1341,  1345,  1349,  1350,  1353,  1359,  1363,  1365,  1367,  1369,
+    1379,  1382,  1384,  1388,  1390,  1394,  1396,  1398,  1402,  1406,
+    1408,  1411,  1415,  1427,  1430,  1436,  1439,  1440,  1443,  1444,
+    1447,  1453,  1460,  1466,  1469,  1472,  1475,  1478,  1481,  1484,
+    1486,  1490,  1492,  1494,  1496,  1498,  1500,  1502,  1504,  1506,
+    1508,  1510,  1512,  1514,  1518,  1522,  1524,  1528,  1530,  1532,
+    1534,  1536,  1538,  1540,  1542,  1546,  1550,  1551,  1554,  1557,
+    1558,  1559,  1562,  1563,  1566,  1567,  1570,  1573,  1574,  1577,
+    1580,  1581,  1584,  1587,  1590,  1591,  1594,  1595,  1598,  1600,
+    1603,  1604,  1605,  1606,  1607,  1608,  1609,  1610,  1611,  1617,
+    1620,  1622,  1624,  1626,  1628,  1630,  1632,  1634,  1636,  1640,
+    1643,  1646,  1649,  1650,  1653,  1654,  1657,  1658,  1661,  1662,
+    1665,  1668,  1671,  1674,  1675,  1678,  1680,  1681,  1682,  1683,
+    1686,  1687,  1690,  1693,  1696,  1697,  1700,  1701,  1702,  1703,
+    1706,  1709,  1712,  1713,  1716,  1717,  1718,  1721,  1725,  1729,
+    1733,  1737,  1741,  1742,  1743,  1744,  1745,  1746,  1747,  1748,
+    1749,  1750,  1751,  1752,  1753,  1754,  1755,  1756,  1757,  1758,
+    1759,  1760,  1761,  1762,  1763,  1764,  1765,  1766,  1767,  1768,
+    1769,  1770,  1771,  1772,  1773,  1774,  1775,  1776,  1777,  1778,
+    1779,  1780,  1781,  1782,  1783,  1784,  1785,  1786,  1787,  1788,
+    1789,  1790,  1791,  1792,  1793,  1794,  1795,  1796,  1797,  1798,
+    1799,  1800,  1801,  1802,  1803,  1804,  1805,  1806,  1807,  1808,
+    1809,  1810,  1811,  1812,  1813,  1814,  1815,  1816,  1817
   };
 
   void
@@ -11996,7 +11961,7 @@ namespace yy {
         context_.location.step();
         // Lexer
 
-#line 12000 "asn_compiler.hpp"
+#line 11965 "asn_compiler.hpp"
 {
 	char yych;
 	unsigned int yyaccept = 0;
@@ -12096,25 +12061,25 @@ namespace yy {
 	}
 yy1:
 	++context_.cursor;
-#line 1948 "asn_compiler.yacc"
+#line 1953 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
-#line 12102 "asn_compiler.hpp"
+#line 12067 "asn_compiler.hpp"
 yy2:
 	++context_.cursor;
 yy3:
-#line 1974 "asn_compiler.yacc"
+#line 1979 "asn_compiler.yacc"
 	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
-#line 12108 "asn_compiler.hpp"
+#line 12073 "asn_compiler.hpp"
 yy4:
 	++context_.cursor;
-#line 1952 "asn_compiler.yacc"
+#line 1957 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
-#line 12113 "asn_compiler.hpp"
+#line 12078 "asn_compiler.hpp"
 yy5:
 	++context_.cursor;
-#line 1951 "asn_compiler.yacc"
+#line 1956 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-#line 12118 "asn_compiler.hpp"
+#line 12083 "asn_compiler.hpp"
 yy6:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12123,9 +12088,9 @@ yy6:
 	}
 yy7:
 	++context_.cursor;
-#line 1970 "asn_compiler.yacc"
+#line 1975 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCLAMATION_MARK (context_.location); }
-#line 12129 "asn_compiler.hpp"
+#line 12094 "asn_compiler.hpp"
 yy8:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12220,19 +12185,19 @@ yy10:
 	}
 yy11:
 	++context_.cursor;
-#line 1960 "asn_compiler.yacc"
+#line 1965 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-#line 12226 "asn_compiler.hpp"
+#line 12191 "asn_compiler.hpp"
 yy12:
 	++context_.cursor;
-#line 1961 "asn_compiler.yacc"
+#line 1966 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-#line 12231 "asn_compiler.hpp"
+#line 12196 "asn_compiler.hpp"
 yy13:
 	++context_.cursor;
-#line 1966 "asn_compiler.yacc"
+#line 1971 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-#line 12236 "asn_compiler.hpp"
+#line 12201 "asn_compiler.hpp"
 yy14:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12250,9 +12215,9 @@ yy14:
 		default: goto yy15;
 	}
 yy15:
-#line 1967 "asn_compiler.yacc"
+#line 1972 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
-#line 12256 "asn_compiler.hpp"
+#line 12221 "asn_compiler.hpp"
 yy16:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12260,9 +12225,9 @@ yy16:
 		default: goto yy17;
 	}
 yy17:
-#line 1968 "asn_compiler.yacc"
+#line 1973 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
-#line 12266 "asn_compiler.hpp"
+#line 12231 "asn_compiler.hpp"
 yy18:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12288,9 +12253,9 @@ yy19:
 		default: goto yy20;
 	}
 yy20:
-#line 1934 "asn_compiler.yacc"
+#line 1939 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 12294 "asn_compiler.hpp"
+#line 12259 "asn_compiler.hpp"
 yy21:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12299,24 +12264,24 @@ yy21:
 		default: goto yy22;
 	}
 yy22:
-#line 1964 "asn_compiler.yacc"
+#line 1969 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
-#line 12305 "asn_compiler.hpp"
+#line 12270 "asn_compiler.hpp"
 yy23:
 	++context_.cursor;
-#line 1965 "asn_compiler.yacc"
+#line 1970 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-#line 12310 "asn_compiler.hpp"
+#line 12275 "asn_compiler.hpp"
 yy24:
 	++context_.cursor;
-#line 1971 "asn_compiler.yacc"
+#line 1976 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-#line 12315 "asn_compiler.hpp"
+#line 12280 "asn_compiler.hpp"
 yy25:
 	++context_.cursor;
-#line 1973 "asn_compiler.yacc"
+#line 1978 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-#line 12320 "asn_compiler.hpp"
+#line 12285 "asn_compiler.hpp"
 yy26:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12329,9 +12294,9 @@ yy26:
 		default: goto yy35;
 	}
 yy27:
-#line 1942 "asn_compiler.yacc"
+#line 1947 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12335 "asn_compiler.hpp"
+#line 12300 "asn_compiler.hpp"
 yy28:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12562,19 +12527,19 @@ yy46:
 	}
 yy47:
 	++context_.cursor;
-#line 1962 "asn_compiler.yacc"
+#line 1967 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-#line 12568 "asn_compiler.hpp"
+#line 12533 "asn_compiler.hpp"
 yy48:
 	++context_.cursor;
-#line 1963 "asn_compiler.yacc"
+#line 1968 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-#line 12573 "asn_compiler.hpp"
+#line 12538 "asn_compiler.hpp"
 yy49:
 	++context_.cursor;
-#line 1972 "asn_compiler.yacc"
+#line 1977 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-#line 12578 "asn_compiler.hpp"
+#line 12543 "asn_compiler.hpp"
 yy50:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12646,24 +12611,24 @@ yy50:
 		default: goto yy51;
 	}
 yy51:
-#line 1943 "asn_compiler.yacc"
+#line 1948 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12652 "asn_compiler.hpp"
+#line 12617 "asn_compiler.hpp"
 yy52:
 	++context_.cursor;
-#line 1958 "asn_compiler.yacc"
+#line 1963 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-#line 12657 "asn_compiler.hpp"
+#line 12622 "asn_compiler.hpp"
 yy53:
 	++context_.cursor;
-#line 1969 "asn_compiler.yacc"
+#line 1974 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-#line 12662 "asn_compiler.hpp"
+#line 12627 "asn_compiler.hpp"
 yy54:
 	++context_.cursor;
-#line 1959 "asn_compiler.yacc"
+#line 1964 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-#line 12667 "asn_compiler.hpp"
+#line 12632 "asn_compiler.hpp"
 yy55:
 	yych = *++context_.cursor;
 yy56:
@@ -12786,9 +12751,9 @@ yy58:
 		default: goto yy59;
 	}
 yy59:
-#line 1937 "asn_compiler.yacc"
+#line 1942 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-#line 12792 "asn_compiler.hpp"
+#line 12757 "asn_compiler.hpp"
 yy60:
 	++context_.cursor;
 	goto yy59;
@@ -12872,9 +12837,9 @@ yy62:
 		default: goto yy63;
 	}
 yy63:
-#line 1944 "asn_compiler.yacc"
+#line 1949 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12878 "asn_compiler.hpp"
+#line 12843 "asn_compiler.hpp"
 yy64:
 	yyaccept = 7;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12946,9 +12911,9 @@ yy64:
 		default: goto yy65;
 	}
 yy65:
-#line 1945 "asn_compiler.yacc"
+#line 1950 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12952 "asn_compiler.hpp"
+#line 12917 "asn_compiler.hpp"
 yy66:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13028,9 +12993,9 @@ yy69:
 		default: goto yy69;
 	}
 yy70:
-#line 1928 "asn_compiler.yacc"
+#line 1933 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 13034 "asn_compiler.hpp"
+#line 12999 "asn_compiler.hpp"
 yy71:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13047,9 +13012,9 @@ yy71:
 		default: goto yy72;
 	}
 yy72:
-#line 1935 "asn_compiler.yacc"
+#line 1940 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 13053 "asn_compiler.hpp"
+#line 13018 "asn_compiler.hpp"
 yy73:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13057,9 +13022,9 @@ yy73:
 		default: goto yy74;
 	}
 yy74:
-#line 1957 "asn_compiler.yacc"
+#line 1962 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-#line 13063 "asn_compiler.hpp"
+#line 13028 "asn_compiler.hpp"
 yy75:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13290,9 +13255,9 @@ yy88:
 		default: goto yy89;
 	}
 yy89:
-#line 1841 "asn_compiler.yacc"
+#line 1846 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-#line 13296 "asn_compiler.hpp"
+#line 13261 "asn_compiler.hpp"
 yy90:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -13547,9 +13512,9 @@ yy115:
 		default: goto yy116;
 	}
 yy116:
-#line 1889 "asn_compiler.yacc"
+#line 1894 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-#line 13553 "asn_compiler.hpp"
+#line 13518 "asn_compiler.hpp"
 yy117:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -13949,14 +13914,14 @@ yy145:
 	}
 yy146:
 	++context_.cursor;
-#line 1939 "asn_compiler.yacc"
+#line 1944 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13955 "asn_compiler.hpp"
+#line 13920 "asn_compiler.hpp"
 yy147:
 	++context_.cursor;
-#line 1941 "asn_compiler.yacc"
+#line 1946 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13960 "asn_compiler.hpp"
+#line 13925 "asn_compiler.hpp"
 yy148:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13974,9 +13939,9 @@ yy149:
 	}
 yy150:
 	++context_.cursor;
-#line 1956 "asn_compiler.yacc"
+#line 1961 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-#line 13980 "asn_compiler.hpp"
+#line 13945 "asn_compiler.hpp"
 yy151:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -14001,14 +13966,14 @@ yy152:
 		default: goto yy153;
 	}
 yy153:
-#line 1933 "asn_compiler.yacc"
+#line 1938 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-#line 14007 "asn_compiler.hpp"
+#line 13972 "asn_compiler.hpp"
 yy154:
 	++context_.cursor;
-#line 1955 "asn_compiler.yacc"
+#line 1960 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-#line 14012 "asn_compiler.hpp"
+#line 13977 "asn_compiler.hpp"
 yy155:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14088,9 +14053,9 @@ yy156:
 		default: goto yy157;
 	}
 yy157:
-#line 1833 "asn_compiler.yacc"
+#line 1838 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-#line 14094 "asn_compiler.hpp"
+#line 14059 "asn_compiler.hpp"
 yy158:
 	yyaccept = 11;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14162,9 +14127,9 @@ yy158:
 		default: goto yy159;
 	}
 yy159:
-#line 1834 "asn_compiler.yacc"
+#line 1839 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-#line 14168 "asn_compiler.hpp"
+#line 14133 "asn_compiler.hpp"
 yy160:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14257,9 +14222,9 @@ yy163:
 		default: goto yy164;
 	}
 yy164:
-#line 1838 "asn_compiler.yacc"
+#line 1843 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-#line 14263 "asn_compiler.hpp"
+#line 14228 "asn_compiler.hpp"
 yy165:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14417,9 +14382,9 @@ yy177:
 		default: goto yy178;
 	}
 yy178:
-#line 1857 "asn_compiler.yacc"
+#line 1862 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-#line 14423 "asn_compiler.hpp"
+#line 14388 "asn_compiler.hpp"
 yy179:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14598,9 +14563,9 @@ yy194:
 		default: goto yy195;
 	}
 yy195:
-#line 1880 "asn_compiler.yacc"
+#line 1885 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-#line 14604 "asn_compiler.hpp"
+#line 14569 "asn_compiler.hpp"
 yy196:
 	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14672,9 +14637,9 @@ yy196:
 		default: goto yy197;
 	}
 yy197:
-#line 1881 "asn_compiler.yacc"
+#line 1886 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-#line 14678 "asn_compiler.hpp"
+#line 14643 "asn_compiler.hpp"
 yy198:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14809,9 +14774,9 @@ yy207:
 		default: goto yy208;
 	}
 yy208:
-#line 1893 "asn_compiler.yacc"
+#line 1898 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-#line 14815 "asn_compiler.hpp"
+#line 14780 "asn_compiler.hpp"
 yy209:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14932,9 +14897,9 @@ yy216:
 		default: goto yy217;
 	}
 yy217:
-#line 1902 "asn_compiler.yacc"
+#line 1907 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-#line 14938 "asn_compiler.hpp"
+#line 14903 "asn_compiler.hpp"
 yy218:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15051,14 +15016,14 @@ yy233:
 	}
 yy234:
 	++context_.cursor;
-#line 1926 "asn_compiler.yacc"
+#line 1931 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 15057 "asn_compiler.hpp"
+#line 15022 "asn_compiler.hpp"
 yy235:
 	++context_.cursor;
-#line 1930 "asn_compiler.yacc"
+#line 1935 "asn_compiler.yacc"
 	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
-#line 15062 "asn_compiler.hpp"
+#line 15027 "asn_compiler.hpp"
 yy236:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15221,9 +15186,9 @@ yy249:
 		default: goto yy250;
 	}
 yy250:
-#line 1849 "asn_compiler.yacc"
+#line 1854 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-#line 15227 "asn_compiler.hpp"
+#line 15192 "asn_compiler.hpp"
 yy251:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15373,9 +15338,9 @@ yy262:
 		default: goto yy263;
 	}
 yy263:
-#line 1865 "asn_compiler.yacc"
+#line 1870 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-#line 15379 "asn_compiler.hpp"
+#line 15344 "asn_compiler.hpp"
 yy264:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15594,9 +15559,9 @@ yy276:
 		default: goto yy277;
 	}
 yy277:
-#line 1884 "asn_compiler.yacc"
+#line 1889 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-#line 15600 "asn_compiler.hpp"
+#line 15565 "asn_compiler.hpp"
 yy278:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15745,9 +15710,9 @@ yy289:
 		default: goto yy290;
 	}
 yy290:
-#line 1898 "asn_compiler.yacc"
+#line 1903 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-#line 15751 "asn_compiler.hpp"
+#line 15716 "asn_compiler.hpp"
 yy291:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15840,9 +15805,9 @@ yy294:
 		default: goto yy295;
 	}
 yy295:
-#line 1904 "asn_compiler.yacc"
+#line 1909 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-#line 15846 "asn_compiler.hpp"
+#line 15811 "asn_compiler.hpp"
 yy296:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15935,9 +15900,9 @@ yy299:
 		default: goto yy300;
 	}
 yy300:
-#line 1908 "asn_compiler.yacc"
+#line 1913 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-#line 15941 "asn_compiler.hpp"
+#line 15906 "asn_compiler.hpp"
 yy301:
 	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16009,9 +15974,9 @@ yy301:
 		default: goto yy302;
 	}
 yy302:
-#line 1910 "asn_compiler.yacc"
+#line 1915 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-#line 16015 "asn_compiler.hpp"
+#line 15980 "asn_compiler.hpp"
 yy303:
 	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16083,9 +16048,9 @@ yy303:
 		default: goto yy304;
 	}
 yy304:
-#line 1912 "asn_compiler.yacc"
+#line 1917 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-#line 16089 "asn_compiler.hpp"
+#line 16054 "asn_compiler.hpp"
 yy305:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16227,9 +16192,9 @@ yy315:
 		default: goto yy316;
 	}
 yy316:
-#line 1922 "asn_compiler.yacc"
+#line 1927 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-#line 16233 "asn_compiler.hpp"
+#line 16198 "asn_compiler.hpp"
 yy317:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16329,9 +16294,9 @@ yy321:
 		default: goto yy322;
 	}
 yy322:
-#line 1837 "asn_compiler.yacc"
+#line 1842 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-#line 16335 "asn_compiler.hpp"
+#line 16300 "asn_compiler.hpp"
 yy323:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16431,9 +16396,9 @@ yy327:
 		default: goto yy328;
 	}
 yy328:
-#line 1844 "asn_compiler.yacc"
+#line 1849 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-#line 16437 "asn_compiler.hpp"
+#line 16402 "asn_compiler.hpp"
 yy329:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16672,9 +16637,9 @@ yy344:
 		default: goto yy345;
 	}
 yy345:
-#line 1864 "asn_compiler.yacc"
+#line 1869 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-#line 16678 "asn_compiler.hpp"
+#line 16643 "asn_compiler.hpp"
 yy346:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16859,9 +16824,9 @@ yy362:
 		default: goto yy363;
 	}
 yy363:
-#line 1888 "asn_compiler.yacc"
+#line 1893 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-#line 16865 "asn_compiler.hpp"
+#line 16830 "asn_compiler.hpp"
 yy364:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17174,9 +17139,9 @@ yy381:
 		default: goto yy382;
 	}
 yy382:
-#line 1914 "asn_compiler.yacc"
+#line 1919 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-#line 17180 "asn_compiler.hpp"
+#line 17145 "asn_compiler.hpp"
 yy383:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17297,9 +17262,9 @@ yy390:
 		default: goto yy391;
 	}
 yy391:
-#line 1831 "asn_compiler.yacc"
+#line 1836 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-#line 17303 "asn_compiler.hpp"
+#line 17268 "asn_compiler.hpp"
 yy392:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17413,9 +17378,9 @@ yy398:
 		default: goto yy399;
 	}
 yy399:
-#line 1843 "asn_compiler.yacc"
+#line 1848 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-#line 17419 "asn_compiler.hpp"
+#line 17384 "asn_compiler.hpp"
 yy400:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17564,9 +17529,9 @@ yy411:
 		default: goto yy412;
 	}
 yy412:
-#line 1859 "asn_compiler.yacc"
+#line 1864 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-#line 17570 "asn_compiler.hpp"
+#line 17535 "asn_compiler.hpp"
 yy413:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17900,9 +17865,9 @@ yy433:
 		default: goto yy434;
 	}
 yy434:
-#line 1886 "asn_compiler.yacc"
+#line 1891 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-#line 17906 "asn_compiler.hpp"
+#line 17871 "asn_compiler.hpp"
 yy435:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18051,9 +18016,9 @@ yy446:
 		default: goto yy447;
 	}
 yy447:
-#line 1905 "asn_compiler.yacc"
+#line 1910 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-#line 18057 "asn_compiler.hpp"
+#line 18022 "asn_compiler.hpp"
 yy448:
 	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18125,9 +18090,9 @@ yy448:
 		default: goto yy449;
 	}
 yy449:
-#line 1906 "asn_compiler.yacc"
+#line 1911 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-#line 18131 "asn_compiler.hpp"
+#line 18096 "asn_compiler.hpp"
 yy450:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18227,9 +18192,9 @@ yy454:
 		default: goto yy455;
 	}
 yy455:
-#line 1915 "asn_compiler.yacc"
+#line 1920 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-#line 18233 "asn_compiler.hpp"
+#line 18198 "asn_compiler.hpp"
 yy456:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18371,9 +18336,9 @@ yy466:
 		default: goto yy467;
 	}
 yy467:
-#line 1840 "asn_compiler.yacc"
+#line 1845 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-#line 18377 "asn_compiler.hpp"
+#line 18342 "asn_compiler.hpp"
 yy468:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18480,9 +18445,9 @@ yy473:
 		default: goto yy474;
 	}
 yy474:
-#line 1851 "asn_compiler.yacc"
+#line 1856 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-#line 18486 "asn_compiler.hpp"
+#line 18451 "asn_compiler.hpp"
 yy475:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18575,9 +18540,9 @@ yy478:
 		default: goto yy479;
 	}
 yy479:
-#line 1855 "asn_compiler.yacc"
+#line 1860 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-#line 18581 "asn_compiler.hpp"
+#line 18546 "asn_compiler.hpp"
 yy480:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18670,9 +18635,9 @@ yy483:
 		default: goto yy484;
 	}
 yy484:
-#line 1861 "asn_compiler.yacc"
+#line 1866 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-#line 18676 "asn_compiler.hpp"
+#line 18641 "asn_compiler.hpp"
 yy485:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18794,9 +18759,9 @@ yy492:
 		default: goto yy493;
 	}
 yy493:
-#line 1872 "asn_compiler.yacc"
+#line 1877 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-#line 18800 "asn_compiler.hpp"
+#line 18765 "asn_compiler.hpp"
 yy494:
 	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18868,9 +18833,9 @@ yy494:
 		default: goto yy495;
 	}
 yy495:
-#line 1873 "asn_compiler.yacc"
+#line 1878 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-#line 18874 "asn_compiler.hpp"
+#line 18839 "asn_compiler.hpp"
 yy496:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18963,9 +18928,9 @@ yy499:
 		default: goto yy500;
 	}
 yy500:
-#line 1877 "asn_compiler.yacc"
+#line 1882 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-#line 18969 "asn_compiler.hpp"
+#line 18934 "asn_compiler.hpp"
 yy501:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19072,9 +19037,9 @@ yy506:
 		default: goto yy507;
 	}
 yy507:
-#line 1890 "asn_compiler.yacc"
+#line 1895 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-#line 19078 "asn_compiler.hpp"
+#line 19043 "asn_compiler.hpp"
 yy508:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19160,9 +19125,9 @@ yy510:
 		default: goto yy511;
 	}
 yy511:
-#line 1892 "asn_compiler.yacc"
+#line 1897 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-#line 19166 "asn_compiler.hpp"
+#line 19131 "asn_compiler.hpp"
 yy512:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19241,9 +19206,9 @@ yy513:
 		default: goto yy514;
 	}
 yy514:
-#line 1895 "asn_compiler.yacc"
+#line 1900 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-#line 19247 "asn_compiler.hpp"
+#line 19212 "asn_compiler.hpp"
 yy515:
 	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19315,9 +19280,9 @@ yy515:
 		default: goto yy516;
 	}
 yy516:
-#line 1897 "asn_compiler.yacc"
+#line 1902 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-#line 19321 "asn_compiler.hpp"
+#line 19286 "asn_compiler.hpp"
 yy517:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19452,9 +19417,9 @@ yy526:
 		default: goto yy527;
 	}
 yy527:
-#line 1918 "asn_compiler.yacc"
+#line 1923 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-#line 19458 "asn_compiler.hpp"
+#line 19423 "asn_compiler.hpp"
 yy528:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19624,9 +19589,9 @@ yy542:
 		default: goto yy543;
 	}
 yy543:
-#line 1853 "asn_compiler.yacc"
+#line 1858 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-#line 19630 "asn_compiler.hpp"
+#line 19595 "asn_compiler.hpp"
 yy544:
 	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19698,9 +19663,9 @@ yy544:
 		default: goto yy545;
 	}
 yy545:
-#line 1854 "asn_compiler.yacc"
+#line 1859 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-#line 19704 "asn_compiler.hpp"
+#line 19669 "asn_compiler.hpp"
 yy546:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19786,9 +19751,9 @@ yy548:
 		default: goto yy549;
 	}
 yy549:
-#line 1860 "asn_compiler.yacc"
+#line 1865 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-#line 19792 "asn_compiler.hpp"
+#line 19757 "asn_compiler.hpp"
 yy550:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19867,9 +19832,9 @@ yy551:
 		default: goto yy552;
 	}
 yy552:
-#line 1863 "asn_compiler.yacc"
+#line 1868 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-#line 19873 "asn_compiler.hpp"
+#line 19838 "asn_compiler.hpp"
 yy553:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19976,9 +19941,9 @@ yy558:
 		default: goto yy559;
 	}
 yy559:
-#line 1871 "asn_compiler.yacc"
+#line 1876 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-#line 19982 "asn_compiler.hpp"
+#line 19947 "asn_compiler.hpp"
 yy560:
 	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20050,9 +20015,9 @@ yy560:
 		default: goto yy561;
 	}
 yy561:
-#line 1874 "asn_compiler.yacc"
+#line 1879 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-#line 20056 "asn_compiler.hpp"
+#line 20021 "asn_compiler.hpp"
 yy562:
 	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20124,9 +20089,9 @@ yy562:
 		default: goto yy563;
 	}
 yy563:
-#line 1875 "asn_compiler.yacc"
+#line 1880 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-#line 20130 "asn_compiler.hpp"
+#line 20095 "asn_compiler.hpp"
 yy564:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20240,9 +20205,9 @@ yy570:
 		default: goto yy571;
 	}
 yy571:
-#line 1891 "asn_compiler.yacc"
+#line 1896 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-#line 20246 "asn_compiler.hpp"
+#line 20211 "asn_compiler.hpp"
 yy572:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20342,9 +20307,9 @@ yy576:
 		default: goto yy577;
 	}
 yy577:
-#line 1901 "asn_compiler.yacc"
+#line 1906 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-#line 20348 "asn_compiler.hpp"
+#line 20313 "asn_compiler.hpp"
 yy578:
 	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20416,9 +20381,9 @@ yy578:
 		default: goto yy579;
 	}
 yy579:
-#line 1903 "asn_compiler.yacc"
+#line 1908 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-#line 20422 "asn_compiler.hpp"
+#line 20387 "asn_compiler.hpp"
 yy580:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20689,9 +20654,9 @@ yy591:
 		default: goto yy592;
 	}
 yy592:
-#line 1836 "asn_compiler.yacc"
+#line 1841 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-#line 20695 "asn_compiler.hpp"
+#line 20660 "asn_compiler.hpp"
 yy593:
 	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20763,9 +20728,9 @@ yy593:
 		default: goto yy594;
 	}
 yy594:
-#line 1839 "asn_compiler.yacc"
+#line 1844 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-#line 20769 "asn_compiler.hpp"
+#line 20734 "asn_compiler.hpp"
 yy595:
 	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20837,9 +20802,9 @@ yy595:
 		default: goto yy596;
 	}
 yy596:
-#line 1842 "asn_compiler.yacc"
+#line 1847 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-#line 20843 "asn_compiler.hpp"
+#line 20808 "asn_compiler.hpp"
 yy597:
 	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20911,9 +20876,9 @@ yy597:
 		default: goto yy598;
 	}
 yy598:
-#line 1845 "asn_compiler.yacc"
+#line 1850 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-#line 20917 "asn_compiler.hpp"
+#line 20882 "asn_compiler.hpp"
 yy599:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20999,9 +20964,9 @@ yy601:
 		default: goto yy602;
 	}
 yy602:
-#line 1850 "asn_compiler.yacc"
+#line 1855 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-#line 21005 "asn_compiler.hpp"
+#line 20970 "asn_compiler.hpp"
 yy603:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21122,9 +21087,9 @@ yy610:
 		default: goto yy611;
 	}
 yy611:
-#line 1869 "asn_compiler.yacc"
+#line 1874 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-#line 21128 "asn_compiler.hpp"
+#line 21093 "asn_compiler.hpp"
 yy612:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21334,9 +21299,9 @@ yy623:
 		default: goto yy624;
 	}
 yy624:
-#line 1907 "asn_compiler.yacc"
+#line 1912 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-#line 21340 "asn_compiler.hpp"
+#line 21305 "asn_compiler.hpp"
 yy625:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21429,9 +21394,9 @@ yy628:
 		default: goto yy629;
 	}
 yy629:
-#line 1916 "asn_compiler.yacc"
+#line 1921 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-#line 21435 "asn_compiler.hpp"
+#line 21400 "asn_compiler.hpp"
 yy630:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21545,9 +21510,9 @@ yy636:
 		default: goto yy637;
 	}
 yy637:
-#line 1846 "asn_compiler.yacc"
+#line 1851 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-#line 21551 "asn_compiler.hpp"
+#line 21516 "asn_compiler.hpp"
 yy638:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21626,9 +21591,9 @@ yy639:
 		default: goto yy640;
 	}
 yy640:
-#line 1848 "asn_compiler.yacc"
+#line 1853 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-#line 21632 "asn_compiler.hpp"
+#line 21597 "asn_compiler.hpp"
 yy641:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21714,9 +21679,9 @@ yy643:
 		default: goto yy644;
 	}
 yy644:
-#line 1858 "asn_compiler.yacc"
+#line 1863 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-#line 21720 "asn_compiler.hpp"
+#line 21685 "asn_compiler.hpp"
 yy645:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21816,9 +21781,9 @@ yy649:
 		default: goto yy650;
 	}
 yy650:
-#line 1870 "asn_compiler.yacc"
+#line 1875 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-#line 21822 "asn_compiler.hpp"
+#line 21787 "asn_compiler.hpp"
 yy651:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21981,9 +21946,9 @@ yy664:
 		default: goto yy665;
 	}
 yy665:
-#line 1919 "asn_compiler.yacc"
+#line 1924 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-#line 21987 "asn_compiler.hpp"
+#line 21952 "asn_compiler.hpp"
 yy666:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22083,9 +22048,9 @@ yy670:
 		default: goto yy671;
 	}
 yy671:
-#line 1835 "asn_compiler.yacc"
+#line 1840 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-#line 22089 "asn_compiler.hpp"
+#line 22054 "asn_compiler.hpp"
 yy672:
 	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22157,9 +22122,9 @@ yy672:
 		default: goto yy673;
 	}
 yy673:
-#line 1847 "asn_compiler.yacc"
+#line 1852 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-#line 22163 "asn_compiler.hpp"
+#line 22128 "asn_compiler.hpp"
 yy674:
 	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22231,9 +22196,9 @@ yy674:
 		default: goto yy675;
 	}
 yy675:
-#line 1852 "asn_compiler.yacc"
+#line 1857 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-#line 22237 "asn_compiler.hpp"
+#line 22202 "asn_compiler.hpp"
 yy676:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22410,9 +22375,9 @@ yy691:
 		default: goto yy692;
 	}
 yy692:
-#line 1911 "asn_compiler.yacc"
+#line 1916 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-#line 22416 "asn_compiler.hpp"
+#line 22381 "asn_compiler.hpp"
 yy693:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22561,9 +22526,9 @@ yy704:
 		default: goto yy705;
 	}
 yy705:
-#line 1876 "asn_compiler.yacc"
+#line 1881 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-#line 22567 "asn_compiler.hpp"
+#line 22532 "asn_compiler.hpp"
 yy706:
 	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22635,9 +22600,9 @@ yy706:
 		default: goto yy707;
 	}
 yy707:
-#line 1878 "asn_compiler.yacc"
+#line 1883 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-#line 22641 "asn_compiler.hpp"
+#line 22606 "asn_compiler.hpp"
 yy708:
 	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22709,9 +22674,9 @@ yy708:
 		default: goto yy709;
 	}
 yy709:
-#line 1879 "asn_compiler.yacc"
+#line 1884 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-#line 22715 "asn_compiler.hpp"
+#line 22680 "asn_compiler.hpp"
 yy710:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22790,9 +22755,9 @@ yy711:
 		default: goto yy712;
 	}
 yy712:
-#line 1883 "asn_compiler.yacc"
+#line 1888 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-#line 22796 "asn_compiler.hpp"
+#line 22761 "asn_compiler.hpp"
 yy713:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22892,9 +22857,9 @@ yy717:
 		default: goto yy718;
 	}
 yy718:
-#line 1899 "asn_compiler.yacc"
+#line 1904 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-#line 22898 "asn_compiler.hpp"
+#line 22863 "asn_compiler.hpp"
 yy719:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23015,9 +22980,9 @@ yy726:
 		default: goto yy727;
 	}
 yy727:
-#line 1862 "asn_compiler.yacc"
+#line 1867 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-#line 23021 "asn_compiler.hpp"
+#line 22986 "asn_compiler.hpp"
 yy728:
 	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23089,9 +23054,9 @@ yy728:
 		default: goto yy729;
 	}
 yy729:
-#line 1867 "asn_compiler.yacc"
+#line 1872 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-#line 23095 "asn_compiler.hpp"
+#line 23060 "asn_compiler.hpp"
 yy730:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23170,9 +23135,9 @@ yy731:
 		default: goto yy732;
 	}
 yy732:
-#line 1868 "asn_compiler.yacc"
+#line 1873 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-#line 23176 "asn_compiler.hpp"
+#line 23141 "asn_compiler.hpp"
 yy733:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23251,9 +23216,9 @@ yy734:
 		default: goto yy735;
 	}
 yy735:
-#line 1885 "asn_compiler.yacc"
+#line 1890 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-#line 23257 "asn_compiler.hpp"
+#line 23222 "asn_compiler.hpp"
 yy736:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23332,9 +23297,9 @@ yy737:
 		default: goto yy738;
 	}
 yy738:
-#line 1894 "asn_compiler.yacc"
+#line 1899 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-#line 23338 "asn_compiler.hpp"
+#line 23303 "asn_compiler.hpp"
 yy739:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23488,9 +23453,9 @@ yy742:
 		default: goto yy743;
 	}
 yy743:
-#line 1909 "asn_compiler.yacc"
+#line 1914 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-#line 23494 "asn_compiler.hpp"
+#line 23459 "asn_compiler.hpp"
 yy744:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23576,9 +23541,9 @@ yy746:
 		default: goto yy747;
 	}
 yy747:
-#line 1921 "asn_compiler.yacc"
+#line 1926 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-#line 23582 "asn_compiler.hpp"
+#line 23547 "asn_compiler.hpp"
 yy748:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23671,9 +23636,9 @@ yy751:
 		default: goto yy752;
 	}
 yy752:
-#line 1882 "asn_compiler.yacc"
+#line 1887 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-#line 23677 "asn_compiler.hpp"
+#line 23642 "asn_compiler.hpp"
 yy753:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23780,9 +23745,9 @@ yy758:
 		default: goto yy759;
 	}
 yy759:
-#line 1920 "asn_compiler.yacc"
+#line 1925 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-#line 23786 "asn_compiler.hpp"
+#line 23751 "asn_compiler.hpp"
 yy760:
 	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23854,9 +23819,9 @@ yy760:
 		default: goto yy761;
 	}
 yy761:
-#line 1832 "asn_compiler.yacc"
+#line 1837 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-#line 23860 "asn_compiler.hpp"
+#line 23825 "asn_compiler.hpp"
 yy762:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23935,9 +23900,9 @@ yy763:
 		default: goto yy764;
 	}
 yy764:
-#line 1866 "asn_compiler.yacc"
+#line 1871 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-#line 23941 "asn_compiler.hpp"
+#line 23906 "asn_compiler.hpp"
 yy765:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24016,9 +23981,9 @@ yy766:
 		default: goto yy767;
 	}
 yy767:
-#line 1896 "asn_compiler.yacc"
+#line 1901 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-#line 24022 "asn_compiler.hpp"
+#line 23987 "asn_compiler.hpp"
 yy768:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24097,9 +24062,9 @@ yy769:
 		default: goto yy770;
 	}
 yy770:
-#line 1913 "asn_compiler.yacc"
+#line 1918 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-#line 24103 "asn_compiler.hpp"
+#line 24068 "asn_compiler.hpp"
 yy771:
 	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24171,9 +24136,9 @@ yy771:
 		default: goto yy772;
 	}
 yy772:
-#line 1917 "asn_compiler.yacc"
+#line 1922 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-#line 24177 "asn_compiler.hpp"
+#line 24142 "asn_compiler.hpp"
 yy773:
 	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24245,9 +24210,9 @@ yy773:
 		default: goto yy774;
 	}
 yy774:
-#line 1856 "asn_compiler.yacc"
+#line 1861 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-#line 24251 "asn_compiler.hpp"
+#line 24216 "asn_compiler.hpp"
 yy775:
 	yyaccept = 98;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24319,9 +24284,9 @@ yy775:
 		default: goto yy776;
 	}
 yy776:
-#line 1887 "asn_compiler.yacc"
+#line 1892 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-#line 24325 "asn_compiler.hpp"
+#line 24290 "asn_compiler.hpp"
 yy777:
 	yyaccept = 99;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24393,11 +24358,11 @@ yy777:
 		default: goto yy778;
 	}
 yy778:
-#line 1900 "asn_compiler.yacc"
+#line 1905 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
-#line 24399 "asn_compiler.hpp"
+#line 24364 "asn_compiler.hpp"
 }
-#line 1975 "asn_compiler.yacc"
+#line 1980 "asn_compiler.yacc"
 
     }
 }
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 03360af..d747317 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -9,6 +9,7 @@
 #include <algorithm>
 #include <cctype>
 #include <fstream>
+#include <limits>
 #include <list>
 #include <map>
 #include <memory>
@@ -498,8 +499,9 @@ struct ComponentType
 
 struct Tag
 {
-    Class class_;
-    int   tag_number;
+    Class       class_;
+    int         tag_number;
+    std::string reference; // The number may be given as a reference to a value
 };
 
 struct TaggedType
-- 
2.43.0


From 30370d088c404428431cf3879d084cd73efa790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 51/59] fix: refuse every SEQUENCE whose optional component may
 be confused with the next, compare tags by class and number

---
 src/compiler/TypeAsString.cpp                 | 28 +++++++++----------
 .../fast_ber/compiler/CompilerTypes.hpp       |  7 ++---
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index ad48dba..e8992e5 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -231,30 +231,28 @@ std::string type_as_string(const RelativeOIDType& type, const Module& module, co
 }
 void check_valid(const SequenceType& sequence, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
-    std::vector<Identifier>     previous_optional_ids;
-    absl::optional<std::string> previous_optional_type;
+    std::vector<Identifier> previous_optional_ids;
+    std::string             previous_optional_type;
     for (const ComponentType& component : sequence.components)
     {
-        if (component.is_optional || component.default_value)
+        auto outer_ids = outer_identifiers(component.named_type.type, module, tree);
+        for (const Identifier& id : outer_ids)
         {
-            auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
-
-            for (const Identifier& previous_optional_id : previous_optional_ids)
+            if (std::find(previous_optional_ids.begin(), previous_optional_ids.end(), id) !=
+                previous_optional_ids.end())
             {
-                if (previous_optional_type && previous_optional_id == outer_ids.front())
-                {
-                    throw std::runtime_error("SEQUENCE " + type_name +
-                                             " is ambiguous, two optional values in a row with same ID [" +
-                                             component.named_type.name + "] [" + *previous_optional_type + "] [" +
-                                             outer_ids.front().name() + "]");
-                }
+                throw std::runtime_error(
+                    "SEQUENCE " + type_name + " is ambiguous, optional value is followed by value with same ID [" +
+                    component.named_type.name + "] [" + previous_optional_type + "] [" + id.name() + "]");
             }
+        }
+        if (component.is_optional || component.default_value)
+        {
             previous_optional_ids  = std::move(outer_ids);
             previous_optional_type = component.named_type.name;
         }
         else
         {
-            previous_optional_type = absl::nullopt;
             previous_optional_ids.clear();
         }
     }
@@ -290,7 +288,7 @@ void check_valid(const SetType& set, const Module& module, const Asn1Tree& tree,
     absl::flat_hash_set<Identifier> ids;
     for (const ComponentType& component : set.components)
     {
-        auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
+        auto outer_ids = outer_identifiers(component.named_type.type, module, tree);
         for (const Identifier& id : outer_ids)
         {
             if (ids.count(id) > 0)
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index d747317..66b5ddb 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -630,12 +630,9 @@ struct Identifier
     template <typename H>
     friend H AbslHashValue(H h, const Identifier& i)
     {
-        return H::combine(std::move(h), i.class_, i.tag_number, i.universal);
-    }
-    bool operator==(const Identifier& rhs) const
-    {
-        return class_ == rhs.class_ && tag_number == rhs.tag_number && universal == rhs.universal;
+        return H::combine(std::move(h), i.class_, i.tag_number);
     }
+    bool operator==(const Identifier& rhs) const { return class_ == rhs.class_ && tag_number == rhs.tag_number; }
 };
 
 struct TaggingInfo
-- 
2.43.0


From 6205ac8dfab4fa79d6d62be2537332e0009edd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:29 +0000
Subject: [PATCH 52/59] fix: templates, object classes and COMPONENTS OF in any
 order, nesting and module mean what the written out type means

---
 src/compiler/CompilerTypes.cpp                |   14 +
 src/compiler/Identifier.cpp                   |   11 +-
 src/compiler/ObjectClass.cpp                  |  119 +-
 src/compiler/Parameters.cpp                   |  259 +-
 src/compiler/ReorderAssignments.cpp           |  183 +-
 src/compiler/ResolveType.cpp                  |  167 +-
 src/compiler/asn_compiler.yacc                |   43 +-
 src/compiler/autogen_copy/asn_compiler.hpp    | 3632 +++++++++--------
 .../fast_ber/compiler/CompilerTypes.hpp       |    4 +
 .../include/fast_ber/compiler/ObjectClass.hpp |   12 -
 .../include/fast_ber/compiler/Parameters.hpp  |   24 +-
 .../include/fast_ber/compiler/ResolveType.hpp |   17 +
 src/compiler_main/CompilerMain.cpp            |   14 +-
 13 files changed, 2281 insertions(+), 2218 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 2c34fbf..5d1ad92 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -205,6 +205,20 @@ bool is_oid(const Type& type)
 
 bool is_defined(const Type& type) { return absl::holds_alternative<DefinedType>(type); }
 
+void set_extension(ComponentTypeList& components)
+{
+    for (ComponentType& component : components)
+    {
+        component.is_extension = true;
+    }
+}
+
+bool is_object_class_field(const Type& type)
+{
+    return absl::holds_alternative<BuiltinType>(type) &&
+           absl::holds_alternative<ObjectClassFieldType>(absl::get<BuiltinType>(type));
+}
+
 // Generated types do not contain tagging info within the type, so need new type definitions to introduct a new tag
 bool is_generated(const Type& type)
 {
diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index 5b8d6b4..c4a3654 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -468,9 +468,16 @@ void apply_automatic_tags(Type& type)
                                      : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
         if (collection.automatic_tagging)
         {
-            for (ComponentType& component : collection.components)
+            // The extension additions are numbered after the components on either side of them
+            for (const bool is_extension : {false, true})
             {
-                component.named_type.type = automatically_tagged(component.named_type.type, tag_number++);
+                for (ComponentType& component : collection.components)
+                {
+                    if (component.is_extension == is_extension)
+                    {
+                        component.named_type.type = automatically_tagged(component.named_type.type, tag_number++);
+                    }
+                }
             }
             collection.automatic_tagging = false;
         }
diff --git a/src/compiler/ObjectClass.cpp b/src/compiler/ObjectClass.cpp
index b221fee..d519a46 100644
--- a/src/compiler/ObjectClass.cpp
+++ b/src/compiler/ObjectClass.cpp
@@ -1,78 +1,25 @@
 #include "fast_ber/compiler/ObjectClass.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
+#include "fast_ber/compiler/Visit.hpp"
 
-void object_class_to_concrete(Asn1Tree& tree, Module& module, Type& type);
-
-void object_class_to_concrete(Asn1Tree& tree, Module& module, ChoiceType& choice)
-{
-    for (NamedType& named_type : choice.choices)
-    {
-        object_class_to_concrete(tree, module, named_type.type);
-    }
-}
-void object_class_to_concrete(Asn1Tree& tree, Module& module, SequenceType& sequence)
-{
-    for (ComponentType& component : sequence.components)
-    {
-        object_class_to_concrete(tree, module, component.named_type.type);
-    }
-}
-void object_class_to_concrete(Asn1Tree& tree, Module& module, SequenceOfType& sequence)
-{
-    Type& type = sequence.has_name ? sequence.named_type->type : *sequence.type;
-    object_class_to_concrete(tree, module, type);
-}
-void object_class_to_concrete(Asn1Tree& tree, Module& module, SetType& set)
-{
-    for (ComponentType& component : set.components)
-    {
-        object_class_to_concrete(tree, module, component.named_type.type);
-    }
-}
-void object_class_to_concrete(Asn1Tree& tree, Module& module, SetOfType& set)
+namespace
 {
-    Type& type = set.has_name ? set.named_type->type : *set.type;
-    object_class_to_concrete(tree, module, type);
-}
-void object_class_to_concrete(Asn1Tree& tree, Module& module, PrefixedType& prefixed_type)
-{
-    object_class_to_concrete(tree, module, prefixed_type.tagged_type->type);
-}
+void object_class_to_concrete(const Asn1Tree& tree, const Module& module, Type& type, size_t depth);
 
-void object_class_to_concrete(Asn1Tree& tree, Module& module, BuiltinType& type)
+// The field may be of a type which itself is a field of a class
+Type create_concrete_type(const Asn1Tree& tree, const Module& module, const ObjectClassFieldType& object_class_field,
+                          size_t depth)
 {
-    if (absl::holds_alternative<ChoiceType>(type))
-    {
-        object_class_to_concrete(tree, module, absl::get<ChoiceType>(type));
-    }
-    else if (absl::holds_alternative<SequenceType>(type))
-    {
-        object_class_to_concrete(tree, module, absl::get<SequenceType>(type));
-    }
-    else if (absl::holds_alternative<SequenceOfType>(type))
-    {
-        object_class_to_concrete(tree, module, absl::get<SequenceOfType>(type));
-    }
-    else if (absl::holds_alternative<SetType>(type))
+    const AssignmentAndModule found     = resolve_reference(tree, module, object_class_field.referenced_object_class);
+    const Assignment&         assigment = found.assignment;
+    if (!absl::holds_alternative<ObjectClassAssignment>(assigment.specific))
     {
-        object_class_to_concrete(tree, module, absl::get<SetType>(type));
-    }
-    else if (absl::holds_alternative<SetOfType>(type))
-    {
-        object_class_to_concrete(tree, module, absl::get<SetOfType>(type));
-    }
-    else if (absl::holds_alternative<PrefixedType>(type))
-    {
-        object_class_to_concrete(tree, module, absl::get<PrefixedType>(type));
+        throw std::runtime_error("Referenced object is not an ObjectClass " +
+                                 object_class_field.referenced_object_class.type_reference);
     }
-}
-
-Type create_concrete_type(Asn1Tree& tree, Module& module, ObjectClassFieldType& object_class_field)
-{
-    const Assignment& assigment = resolve(tree, module.module_reference, object_class_field.referenced_object_class);
-    if (!is_object_class(assigment))
+    if (depth > 1000)
     {
-        throw std::runtime_error("Referenced object is not an ObjectClass " +
+        throw std::runtime_error("Circular object class definition " +
                                  object_class_field.referenced_object_class.type_reference);
     }
 
@@ -84,7 +31,13 @@ Type create_concrete_type(Asn1Tree& tree, Module& module, ObjectClassFieldType&
             {
                 if (absl::holds_alternative<FixedTypeValueField>(field.field))
                 {
-                    return absl::get<FixedTypeValueField>(field.field).type;
+                    Type type = absl::get<FixedTypeValueField>(field.field).type;
+                    object_class_to_concrete(tree, found.module, type, depth + 1);
+                    if (found.module.module_reference != module.module_reference)
+                    {
+                        qualify_references(tree, found.module, type, {});
+                    }
+                    return type;
                 }
                 throw std::runtime_error("Referenced class field does not have a type: " +
                                          object_class_field.referenced_object_class.type_reference + "." +
@@ -97,28 +50,17 @@ Type create_concrete_type(Asn1Tree& tree, Module& module, ObjectClassFieldType&
                              object_class_field.referenced_object_class.type_reference);
 }
 
-void object_class_to_concrete(Asn1Tree& tree, Module& module, Type& type)
+void object_class_to_concrete(const Asn1Tree& tree, const Module& module, Type& type, size_t depth)
 {
-    if (absl::holds_alternative<BuiltinType>(type))
+    if (is_object_class_field(type))
     {
-        if (absl::holds_alternative<ObjectClassFieldType>(absl::get<BuiltinType>(type)))
-        {
-            type = create_concrete_type(tree, module, absl::get<ObjectClassFieldType>(absl::get<BuiltinType>(type)));
-        }
-        else
-        {
-            object_class_to_concrete(tree, module, absl::get<BuiltinType>(type));
-        }
-    }
-    else if (absl::holds_alternative<DefinedType>(type))
-    {
-        // Do nothing
-    }
-    else
-    {
-        throw std::runtime_error("Unhandled type!");
+        const ObjectClassFieldType field = absl::get<ObjectClassFieldType>(absl::get<BuiltinType>(type));
+        type                             = create_concrete_type(tree, module, field, depth);
+        return;
     }
+    for_each_child(type, [&](Type& child) { object_class_to_concrete(tree, module, child, depth); });
 }
+} // namespace
 
 bool is_defined_object_class(const std::string& module_reference, const std::string& type_reference,
                              const std::set<std::string>& object_class_names)
@@ -276,8 +218,11 @@ void resolve_object_classes(Asn1Tree& tree)
         {
             if (absl::holds_alternative<TypeAssignment>(assignment.specific))
             {
-
-                object_class_to_concrete(tree, module, absl::get<TypeAssignment>(assignment.specific).type);
+                object_class_to_concrete(tree, module, type(assignment), 0);
+            }
+            else if (is_value(assignment))
+            {
+                object_class_to_concrete(tree, module, value(assignment).type, 0);
             }
         }
     }
diff --git a/src/compiler/Parameters.cpp b/src/compiler/Parameters.cpp
index 1bc66b8..df3861e 100644
--- a/src/compiler/Parameters.cpp
+++ b/src/compiler/Parameters.cpp
@@ -1,222 +1,133 @@
 #include "fast_ber/compiler/Parameters.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
+#include "fast_ber/compiler/Visit.hpp"
 
-void resolve_parameterized(const Asn1Tree& tree, const Module& module, ChoiceType& choice,
-                           const ParameterTypes& parameters)
+// Replaces the dummy references of a parameterized type with the actual parameters
+void resolve_parameterized(Type& type, const ParameterTypes& parameters)
 {
-    for (NamedType& named_type : choice.choices)
+    if (is_defined(type))
     {
-        resolve_parameterized(tree, module, named_type.type, parameters);
-    }
-}
-void resolve_parameterized(const Asn1Tree& tree, const Module& module, SequenceType& sequence,
-                           const ParameterTypes& parameters)
-{
-    for (ComponentType& component : sequence.components)
-    {
-        resolve_parameterized(tree, module, component.named_type.type, parameters);
-    }
-}
-void resolve_parameterized(const Asn1Tree& tree, const Module& module, SequenceOfType& sequence,
-                           const ParameterTypes& parameters)
-{
-    Type& type = sequence.has_name ? sequence.named_type->type : *sequence.type;
-    resolve_parameterized(tree, module, type, parameters);
-}
-void resolve_parameterized(const Asn1Tree& tree, const Module& module, SetType& set, const ParameterTypes& parameters)
-{
-    for (ComponentType& component : set.components)
-    {
-        resolve_parameterized(tree, module, component.named_type.type, parameters);
-    }
-}
-void resolve_parameterized(const Asn1Tree& tree, const Module& module, SetOfType& set, const ParameterTypes& parameters)
-{
-    Type& type = set.has_name ? set.named_type->type : *set.type;
-    resolve_parameterized(tree, module, type, parameters);
-}
-void resolve_parameterized(const Asn1Tree& tree, const Module& module, PrefixedType& prefixed_type,
-                           const ParameterTypes& parameters)
-{
-    resolve_parameterized(tree, module, prefixed_type.tagged_type->type, parameters);
-}
-
-void resolve_parameterized(const Asn1Tree& tree, const Module& module, BuiltinType& type,
-                           const ParameterTypes& parameters)
-{
-    if (absl::holds_alternative<ChoiceType>(type))
-    {
-        resolve_parameterized(tree, module, absl::get<ChoiceType>(type), parameters);
-    }
-    else if (absl::holds_alternative<SequenceType>(type))
-    {
-        resolve_parameterized(tree, module, absl::get<SequenceType>(type), parameters);
-    }
-    else if (absl::holds_alternative<SequenceOfType>(type))
-    {
-        resolve_parameterized(tree, module, absl::get<SequenceOfType>(type), parameters);
-    }
-    else if (absl::holds_alternative<SetType>(type))
-    {
-        resolve_parameterized(tree, module, absl::get<SetType>(type), parameters);
-    }
-    else if (absl::holds_alternative<SetOfType>(type))
-    {
-        resolve_parameterized(tree, module, absl::get<SetOfType>(type), parameters);
-    }
-    else if (absl::holds_alternative<PrefixedType>(type))
-    {
-        resolve_parameterized(tree, module, absl::get<PrefixedType>(type), parameters);
-    }
-}
-
-void resolve_parameterized(const Asn1Tree& tree, const Module& module, Type& param_type,
-                           const ParameterTypes& parameters)
-{
-    if (absl::holds_alternative<DefinedType>(param_type))
-    {
-        const DefinedType& defined = absl::get<DefinedType>(param_type);
-        if (defined.parameters.size() > 0)
-        {
-            throw std::runtime_error("Nested parameters!");
-        }
-        else if (!defined.module_reference)
+        const DefinedType& defined   = absl::get<DefinedType>(type);
+        const auto         parameter = parameters.find(defined.type_reference);
+        if (!defined.module_reference && parameter != parameters.end())
         {
-            if (parameters.count(defined.type_reference) > 0)
-            {
-                param_type = parameters.find(defined.type_reference)->second;
-                return;
-            }
+            const Type actual = parameter->second;
+            type              = actual;
+            return;
         }
-
-        // param_type = type(resolve(tree, module.module_reference, defined));
-        // resolve_parameterized(tree, module, param_type, parameters);
-    }
-    else if (absl::holds_alternative<BuiltinType>(param_type))
-    {
-        resolve_parameterized(tree, module, absl::get<BuiltinType>(param_type), parameters);
     }
+    for_each_child(type, [&](Type& child) { resolve_parameterized(child, parameters); });
 }
 
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, ChoiceType& choice)
-{
-    for (NamedType& named_type : choice.choices)
-    {
-        parameterized_to_concrete(tree, module, named_type.type);
-    }
-}
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SequenceType& sequence)
-{
-    for (ComponentType& component : sequence.components)
-    {
-        parameterized_to_concrete(tree, module, component.named_type.type);
-    }
-}
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SequenceOfType& sequence)
-{
-    Type& type = sequence.has_name ? sequence.named_type->type : *sequence.type;
-    parameterized_to_concrete(tree, module, type);
-}
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SetType& set)
-{
-    for (ComponentType& component : set.components)
-    {
-        parameterized_to_concrete(tree, module, component.named_type.type);
-    }
-}
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SetOfType& set)
-{
-    Type& type = set.has_name ? set.named_type->type : *set.type;
-    parameterized_to_concrete(tree, module, type);
-}
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, PrefixedType& prefixed_type)
+// Replaces instances of parameterized types with the type they stand for. Templates are those being instantiated
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, Type& param_type,
+                               std::vector<const Assignment*>& templates)
 {
-    parameterized_to_concrete(tree, module, prefixed_type.tagged_type->type);
-}
+    for_each_child(param_type, [&](Type& child) { parameterized_to_concrete(tree, module, child, templates); });
 
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, BuiltinType& type)
-{
-    if (absl::holds_alternative<ChoiceType>(type))
+    if (!is_defined(param_type) || absl::get<DefinedType>(param_type).parameters.empty())
     {
-        parameterized_to_concrete(tree, module, absl::get<ChoiceType>(type));
+        return;
     }
-    else if (absl::holds_alternative<SequenceType>(type))
-    {
-        parameterized_to_concrete(tree, module, absl::get<SequenceType>(type));
-    }
-    else if (absl::holds_alternative<SequenceOfType>(type))
+
+    const DefinedType         defined            = absl::get<DefinedType>(param_type);
+    const AssignmentAndModule found              = resolve_reference(tree, module, defined);
+    const Assignment&         parameter_template = found.assignment;
+    if (!is_type(parameter_template) || parameter_template.parameters.size() != defined.parameters.size())
     {
-        parameterized_to_concrete(tree, module, absl::get<SequenceOfType>(type));
+        throw std::runtime_error("Invalid number of parameters for parameterized assignment " + defined.type_reference +
+                                 ", expected " + std::to_string(parameter_template.parameters.size()) + " got " +
+                                 std::to_string(defined.parameters.size()));
     }
-    else if (absl::holds_alternative<SetType>(type))
+    if (std::find(templates.begin(), templates.end(), &parameter_template) != templates.end())
     {
-        parameterized_to_concrete(tree, module, absl::get<SetType>(type));
+        throw std::runtime_error("Parameterized type " + defined.type_reference + " is defined using itself");
     }
-    else if (absl::holds_alternative<SetOfType>(type))
+
+    ParameterTypes new_parameters;
+    for (size_t i = 0; i < parameter_template.parameters.size(); i++)
     {
-        parameterized_to_concrete(tree, module, absl::get<SetOfType>(type));
+        new_parameters[parameter_template.parameters[i].reference] = defined.parameters[i];
     }
-    else if (absl::holds_alternative<PrefixedType>(type))
+
+    param_type = type(parameter_template);
+    if (found.module.module_reference != module.module_reference)
     {
-        parameterized_to_concrete(tree, module, absl::get<PrefixedType>(type));
+        qualify_references(tree, found.module, param_type, parameter_template.parameters);
     }
+    resolve_parameterized(param_type, new_parameters);
+
+    templates.push_back(&parameter_template);
+    parameterized_to_concrete(tree, module, param_type, templates);
+    templates.pop_back();
 }
 
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, Type& param_type)
+void remove_parameter_templates(Asn1Tree& tree)
 {
-    if (absl::holds_alternative<DefinedType>(param_type))
+    // An imported template may be imported again
+    std::set<std::string> templates;
+    size_t                old_size = 0;
+    do
     {
-        const DefinedType& defined = absl::get<DefinedType>(param_type);
-        if (defined.parameters.size() > 0)
+        old_size = templates.size();
+        for (Module& module : tree.modules)
         {
-            const Assignment& parameter_template = resolve(tree, module.module_reference, defined);
-            if (parameter_template.parameters.size() != defined.parameters.size())
-            {
-                throw std::runtime_error("Invalid number of parameters for parameterized assignment, expected " +
-                                         std::to_string(parameter_template.parameters.size()) + " got " +
-                                         std::to_string(defined.parameters.size()));
-            }
-
-            std::unordered_map<std::string, Type> new_parameters;
-            for (size_t i = 0; i < parameter_template.parameters.size(); i++)
+            const auto is_template = [&](const Assignment& assignment) {
+                return assignment.parameters.size() > 0 ||
+                       (is_imported(module, assignment.name) && is_type(assignment) && is_defined(type(assignment)) &&
+                        templates.count(*absl::get<DefinedType>(type(assignment)).module_reference + "." +
+                                        absl::get<DefinedType>(type(assignment)).type_reference) > 0);
+            };
+            for (const Assignment& assignment : module.assignments)
             {
-                new_parameters[parameter_template.parameters[i].reference] = defined.parameters[i];
+                if (is_template(assignment))
+                {
+                    templates.insert(module.module_reference + "." + assignment.name);
+                }
             }
-
-            param_type = type(parameter_template);
-            resolve_parameterized(tree, module, param_type, new_parameters);
-            return;
         }
-    }
-    else if (absl::holds_alternative<BuiltinType>(param_type))
-    {
-        parameterized_to_concrete(tree, module, absl::get<BuiltinType>(param_type));
-    }
-}
+    } while (templates.size() > old_size);
 
-void remove_parameter_templates(Asn1Tree& tree)
-{
     for (Module& module : tree.modules)
     {
-        module.assignments.erase(
-            std::remove_if(module.assignments.begin(), module.assignments.end(),
-                           [&](const Assignment& assignment) { return assignment.parameters.size() > 0; }),
-            module.assignments.end());
+        module.assignments.erase(std::remove_if(module.assignments.begin(), module.assignments.end(),
+                                                [&](const Assignment& assignment) {
+                                                    return templates.count(module.module_reference + "." +
+                                                                           assignment.name) > 0;
+                                                }),
+                                 module.assignments.end());
     }
 }
 
 // Convert usage of parameterized types into standard ASN.1 types
 void resolve_parameters(Asn1Tree& tree)
 {
+    std::vector<const Assignment*> templates;
     for (Module& module : tree.modules)
     {
         for (Assignment& assignment : module.assignments)
         {
-            if (absl::holds_alternative<TypeAssignment>(assignment.specific))
+            if (assignment.parameters.size() > 0)
+            {
+                continue;
+            }
+            if (is_type(assignment))
+            {
+                parameterized_to_concrete(tree, module, type(assignment), templates);
+            }
+            else if (is_value(assignment))
+            {
+                parameterized_to_concrete(tree, module, value(assignment).type, templates);
+            }
+            else if (absl::holds_alternative<ObjectClassAssignment>(assignment.specific))
             {
-                if (assignment.parameters.size() == 0)
+                for (ClassField& field : object_class(assignment).fields)
                 {
-                    parameterized_to_concrete(tree, module, type(assignment));
+                    if (absl::holds_alternative<FixedTypeValueField>(field.field))
+                    {
+                        parameterized_to_concrete(tree, module, absl::get<FixedTypeValueField>(field.field).type,
+                                                  templates);
+                    }
                 }
             }
         }
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index ddaf646..f098508 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -42,91 +42,111 @@ void check_duplicated_names(const std::vector<Assignment>& assignments, const st
     }
 }
 
+namespace
+{
+Collection* find_collection(Type& type)
+{
+    if (is_sequence(type))
+    {
+        return &absl::get<SequenceType>(absl::get<BuiltinType>(type));
+    }
+    if (is_set(type))
+    {
+        return &absl::get<SetType>(absl::get<BuiltinType>(type));
+    }
+    return nullptr;
+}
+
+// Included are the types whose components are being included
+void resolve_components_of(const Asn1Tree& tree, const Module& module, Type& type,
+                           std::vector<const Assignment*>& included)
+{
+    for_each_child(type, [&](Type& child) { resolve_components_of(tree, module, child, included); });
+
+    Collection* const collection = find_collection(type);
+    if (!collection)
+    {
+        return;
+    }
+
+    ComponentTypeList components;
+    for (const ComponentType& component : collection->components)
+    {
+        if (!component.components_of)
+        {
+            components.push_back(component);
+            continue;
+        }
+
+        Type          inherited        = *component.components_of;
+        const Module* inherited_module = &module;
+        const size_t  depth            = included.size();
+        while (is_defined(inherited) || is_prefixed(inherited))
+        {
+            if (is_prefixed(inherited))
+            {
+                const Type tagged = absl::get<PrefixedType>(absl::get<BuiltinType>(inherited)).tagged_type->type;
+                inherited         = tagged;
+                continue;
+            }
+            const DefinedType defined    = absl::get<DefinedType>(inherited);
+            const Assignment& assignment = resolve(tree, inherited_module->module_reference, defined);
+            if (!is_type(assignment))
+            {
+                throw std::runtime_error("COMPONENTS OF must refer to a type " + defined.type_reference);
+            }
+            if (std::find(included.begin(), included.end(), &assignment) != included.end())
+            {
+                throw std::runtime_error("COMPONENTS OF includes itself " + defined.type_reference);
+            }
+            included.push_back(&assignment);
+            inherited_module = &find_module(tree, *inherited_module, defined);
+            inherited        = ::type(assignment);
+        }
+        if (included.size() > depth)
+        {
+            resolve_components_of(tree, *inherited_module, inherited, included);
+        }
+        if (inherited_module->module_reference != module.module_reference)
+        {
+            qualify_references(tree, *inherited_module, inherited, {});
+        }
+        included.resize(depth);
+
+        const Collection* const inherited_collection = find_collection(inherited);
+        if (!inherited_collection)
+        {
+            throw std::runtime_error("COMPONENTS OF must refer to a SEQUENCE or SET");
+        }
+        for (ComponentType inherited_component : inherited_collection->components)
+        {
+            if (!inherited_component.is_extension)
+            {
+                inherited_component.is_extension = component.is_extension;
+                components.push_back(inherited_component);
+            }
+        }
+    }
+    collection->components = std::move(components);
+}
+} // namespace
+
 void resolve_components_of(Asn1Tree& tree)
 {
+    std::vector<const Assignment*> included;
     for (Module& module : tree.modules)
     {
-        for (Assignment& assignemnt : module.assignments)
+        for (Assignment& assignment : module.assignments)
         {
-            if (absl::holds_alternative<TypeAssignment>(assignemnt.specific))
+            if (is_type(assignment))
             {
-                TypeAssignment& type_assignment = absl::get<TypeAssignment>(assignemnt.specific);
-                if (is_sequence(type_assignment.type))
-                {
-                    SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type_assignment.type));
-                    for (auto iter = sequence.components.begin(); iter != sequence.components.end(); iter++)
-                    {
-                        if (iter->components_of)
-                        {
-                            if (is_defined(*iter->components_of))
-                            {
-                                const DefinedType& defined    = absl::get<DefinedType>(*iter->components_of);
-                                const Type&        inheretied = type(resolve(tree, module.module_reference, defined));
-                                if (is_sequence(inheretied))
-                                {
-                                    const SequenceType& inheretied_sequence =
-                                        absl::get<SequenceType>(absl::get<BuiltinType>(inheretied));
-
-                                    const size_t offset = std::distance(sequence.components.begin(), iter);
-                                    sequence.components.insert(iter, inheretied_sequence.components.begin(),
-                                                               inheretied_sequence.components.end());
-
-                                    iter = sequence.components.begin();
-                                    std::advance(iter, offset);
-                                    std::advance(iter, inheretied_sequence.components.size());
-                                }
-                                else if (is_set(inheretied))
-                                {
-                                    const SetType& inheretied_set =
-                                        absl::get<SetType>(absl::get<BuiltinType>(inheretied));
-
-                                    const size_t offset = std::distance(sequence.components.begin(), iter);
-                                    sequence.components.insert(iter, inheretied_set.components.begin(),
-                                                               inheretied_set.components.end());
-
-                                    iter = sequence.components.begin();
-                                    std::advance(iter, offset);
-                                    std::advance(iter, inheretied_set.components.size());
-                                }
-                            }
-                            else if (is_sequence(*iter->components_of))
-                            {
-                                const SequenceType& inheretied_sequence =
-                                    absl::get<SequenceType>(absl::get<BuiltinType>(*iter->components_of));
-
-                                const size_t offset = std::distance(sequence.components.begin(), iter);
-                                sequence.components.insert(iter, inheretied_sequence.components.begin(),
-                                                           inheretied_sequence.components.end());
-
-                                iter = sequence.components.begin();
-                                std::advance(iter, offset);
-                                std::advance(iter, inheretied_sequence.components.size());
-                            }
-                            else if (is_set(*iter->components_of))
-                            {
-                                const SetType& inheretied_set =
-                                    absl::get<SetType>(absl::get<BuiltinType>(*iter->components_of));
-
-                                const size_t offset = std::distance(sequence.components.begin(), iter);
-                                sequence.components.insert(iter, inheretied_set.components.begin(),
-                                                           inheretied_set.components.end());
-
-                                iter = sequence.components.begin();
-                                std::advance(iter, offset);
-                                std::advance(iter, inheretied_set.components.size());
-                            }
-                            else
-                            {
-                                throw std::runtime_error("Strange type when resolving SEQUENCE OF in type" +
-                                                         assignemnt.name);
-                            }
-                        }
-                    }
-                    sequence.components.erase(
-                        std::remove_if(sequence.components.begin(), sequence.components.end(),
-                                       [](ComponentType& component) { return component.components_of; }),
-                        sequence.components.end());
-                }
+                included.push_back(&assignment);
+                resolve_components_of(tree, module, type(assignment), included);
+                included.pop_back();
+            }
+            else if (is_value(assignment))
+            {
+                resolve_components_of(tree, module, value(assignment).type, included);
             }
         }
     }
@@ -520,13 +540,12 @@ void resolve_module_dependencies(const std::unordered_map<std::string, Module>&
                                  std::unordered_set<std::string>& assigned_names,
                                  std::unordered_set<std::string>& visited_names, std::vector<Module>& ordered_modules)
 {
-    const auto&   module_iter = module_map.find(name);
-    const Module& module      = module_iter->second;
-
+    const auto& module_iter = module_map.find(name);
     if (module_iter == module_map.end())
     {
         throw std::runtime_error("Reference to undefined module: " + name);
     }
+    const Module& module = module_iter->second;
 
     if (assigned_names.count(name) == 1)
     {
diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index 72431b5..446f4bc 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -176,26 +176,25 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
         }
         if (is_defined(type(assignment)))
         {
-            if (defined.module_reference)
-            {
-                module = *defined.module_reference;
-            }
+            module  = working_module.module_reference;
             defined = absl::get<DefinedType>(type(assignment));
         }
         else if (is_prefixed(type(assignment)))
         {
-            PrefixedType prefixed = absl::get<PrefixedType>(absl::get<BuiltinType>(type(assignment)));
-            if (is_defined(prefixed.tagged_type->type))
+            Type  resolved = type(assignment);
+            Type* tagged   = &resolved;
+            while (is_prefixed(*tagged))
             {
-                NamedTypeAndModule const& inner = resolve_type_and_module(
-                    tree, working_module.module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
-                prefixed.tagged_type->type = inner.type.type;
-                return {NamedType{assignment.name, prefixed}, inner.module};
+                tagged = &absl::get<PrefixedType>(absl::get<BuiltinType>(*tagged)).tagged_type->type;
             }
-            else
+            if (is_defined(*tagged))
             {
-                return {NamedType{assignment.name, type(assignment)}, working_module};
+                NamedTypeAndModule const& inner =
+                    resolve_type_and_module(tree, working_module.module_reference, absl::get<DefinedType>(*tagged));
+                *tagged = Type(inner.type.type);
+                return {NamedType{assignment.name, resolved}, inner.module};
             }
+            return {NamedType{assignment.name, type(assignment)}, working_module};
         }
         else
         {
@@ -290,6 +289,150 @@ ValueAndModule find_value(const Asn1Tree& tree, const Module& module, const std:
     return {nullptr, nullptr};
 }
 
+AssignmentAndModule resolve_reference(const Asn1Tree& tree, const Module& module, const DefinedType& defined)
+{
+    DefinedType   reference      = defined;
+    const Module* current_module = &module;
+    for (size_t depth = 0; depth < 1000; depth++)
+    {
+        const Assignment& assignment = resolve(tree, current_module->module_reference, reference);
+        current_module               = &resolve_module(tree, current_module->module_reference, reference);
+        if (!is_type(assignment) || !is_defined(type(assignment)) || !assignment.parameters.empty() ||
+            !absl::get<DefinedType>(type(assignment)).parameters.empty())
+        {
+            return {assignment, *current_module};
+        }
+        reference = absl::get<DefinedType>(type(assignment));
+    }
+    throw std::runtime_error("Circular definition " + module.module_reference + "." + defined.type_reference);
+}
+
+bool is_imported(const Module& module, const std::string& name)
+{
+    return std::any_of(module.imports.begin(), module.imports.end(), [&](const Import& import) {
+        return std::find(import.imported_types.begin(), import.imported_types.end(), name) !=
+               import.imported_types.end();
+    });
+}
+
+// References to values are replaced by the value, other than the names of enumerators and numbers of the type
+void qualify_references(const Asn1Tree& tree, const Module& module, const Type& type, Value& value)
+{
+    if (absl::holds_alternative<std::vector<Value>>(value.value_selection))
+    {
+        for (Value& item : absl::get<std::vector<Value>>(value.value_selection))
+        {
+            qualify_references(tree, module, type, item);
+        }
+    }
+    else if (absl::holds_alternative<DefinedValue>(value.value_selection))
+    {
+        const std::string    name  = absl::get<DefinedValue>(value.value_selection).reference;
+        const ValueAndModule found = find_value(tree, module, name);
+        if (found.value && !is_named_item(type, name))
+        {
+            if (absl::holds_alternative<DefinedValue>(found.value->value.value_selection) &&
+                absl::get<DefinedValue>(found.value->value.value_selection).reference == name)
+            {
+                throw std::runtime_error("Circular value definition " + module.module_reference + "." + name);
+            }
+            value = found.value->value;
+            qualify_references(tree, *found.module, type, value);
+        }
+    }
+}
+
+void qualify_references(const Asn1Tree& tree, const Module& module, Type& type,
+                        const std::vector<Parameter>& parameters)
+{
+    if (is_defined(type) || is_object_class_field(type))
+    {
+        DefinedType& defined =
+            is_defined(type) ? absl::get<DefinedType>(type)
+                             : absl::get<ObjectClassFieldType>(absl::get<BuiltinType>(type)).referenced_object_class;
+        if (!defined.module_reference && !is_a_parameter(defined.type_reference, parameters))
+        {
+            defined.module_reference = module.module_reference;
+        }
+    }
+    else if (is_sequence(type) || is_set(type))
+    {
+        Collection& collection = is_sequence(type)
+                                     ? static_cast<Collection&>(absl::get<SequenceType>(absl::get<BuiltinType>(type)))
+                                     : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
+        for (ComponentType& component : collection.components)
+        {
+            const Type& component_type = component.named_type.type;
+            if (component.default_value &&
+                !(is_defined(component_type) &&
+                  is_a_parameter(absl::get<DefinedType>(component_type).type_reference, parameters)))
+            {
+                const Type& base =
+                    is_defined(component_type) && !absl::get<DefinedType>(component_type).parameters.empty()
+                        ? component_type
+                        : resolve_base_type(tree, module, component.named_type).type;
+                qualify_references(tree, module, base, *component.default_value);
+            }
+        }
+    }
+    for_each_child(type, [&](Type& child) { qualify_references(tree, module, child, parameters); });
+}
+
+namespace
+{
+void check_circular_tags(const Asn1Tree& tree, const Module& module, const Type& type,
+                         std::vector<const Assignment*>& definitions)
+{
+    if (is_defined(type))
+    {
+        const DefinedType& defined    = absl::get<DefinedType>(type);
+        const Assignment&  assignment = resolve(tree, module.module_reference, defined);
+        if (!is_type(assignment))
+        {
+            throw std::runtime_error("Defined must be a type in this context! " + defined.type_reference);
+        }
+        if (std::find(definitions.begin(), definitions.end(), &assignment) != definitions.end())
+        {
+            throw std::runtime_error("Circular definition " + module.module_reference + "." + defined.type_reference);
+        }
+        definitions.push_back(&assignment);
+        check_circular_tags(tree, resolve_module(tree, module.module_reference, defined), ::type(assignment),
+                            definitions);
+        definitions.pop_back();
+    }
+    else if (is_choice(type))
+    {
+        for (const NamedType& choice : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
+        {
+            if (!is_prefixed(choice.type))
+            {
+                check_circular_tags(tree, module, choice.type, definitions);
+            }
+        }
+    }
+}
+} // namespace
+
+void check_circular_tags(const Asn1Tree& tree)
+{
+    std::vector<const Assignment*> definitions;
+    for (const Module& module : tree.modules)
+    {
+        for (const Assignment& assignment : module.assignments)
+        {
+            if (is_type(assignment))
+            {
+                // References and tags alone
+                resolve_base_type(tree, module, NamedType{assignment.name, type(assignment)});
+
+                definitions.push_back(&assignment);
+                check_circular_tags(tree, module, type(assignment), definitions);
+                definitions.pop_back();
+            }
+        }
+    }
+}
+
 NamedType resolve_type(const Asn1Tree& tree, const std::string& current_module_reference,
                        const DefinedType& original_defined)
 {
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index fe9ee07..830472e 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -218,7 +218,7 @@
 %type<BuiltinType>       BuiltinType;
 %type<DefinedType>       DefinedType;
 %type<DefinedType>       ExternalTypeReference;
-%type<std::string>       SimpleDefinedType;
+%type<DefinedType>       SimpleDefinedType;
 %type<DefinedType>       ParameterizedType;
 %type<EnumeratedType>    Enumerations;
 %type<EnumeratedType>    Enumeration;
@@ -678,8 +678,9 @@ ParameterizedReference:
 
 SimpleDefinedType:
     ExternalTypeReference
-|   typereference
     { $$ = $1; }
+|   typereference
+    { $$ = DefinedType{absl::nullopt, $1, {}}; }
 
 SimpleDefinedValue:
     ExternalValueReference
@@ -917,7 +918,7 @@ DefinedValue:
 
 ParameterizedType:
     SimpleDefinedType "{" ActualParameterList "}"
-    { $$ = DefinedType{ absl::nullopt, $1, $3}; }
+    { $$ = $1; $$.parameters = $3; }
 
 ParameterizedValue:
     SimpleDefinedValue "{" ActualParameterList "}"
@@ -931,13 +932,24 @@ ActualParameterList:
 ActualParameter:
     Type
     { $$ = $1; }
-|   ValueWithoutTypeIdentifier
+|   ActualValue
     { std::cerr << "Warning: Not yet dealing with value paramaters\n"; }
 //|   ValueSet
 |   DefinedObjectClass
 //|   Object
 //|   ObjectSet 
 
+// Only the values which can not be confused with a type
+ActualValue:
+    BooleanValue
+|   bstring
+|   hstring
+|   cstring
+|   DefinedValue
+|   SignedNumber
+|   realnumber
+|   "{" SequenceOfValues "}";
+
 NonParameterizedTypeName:
     ExternalTypeReference
 |   typereference
@@ -1226,22 +1238,27 @@ ComponentTypeLists:
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList
     { $$.components = $1;
+      set_extension($6);
       $$.components.insert($$.components.end(), $6.begin(), $6.end());
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS
     { $$.components = $1;
+      set_extension($6);
       $$.components.insert($$.components.end(), $6.begin(), $6.end());
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS "," ComponentTypeList
     { $$.components = $1;
+      set_extension($6);
       $$.components.insert($$.components.end(), $6.begin(), $6.end());
       $$.components.insert($$.components.end(), $10.begin(), $10.end());
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec "," ComponentTypeList
-    { $$.components = $4;
+    { set_extension($4);
+      $$.components = $4;
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS
-    { $$.components = $4;
+    { set_extension($4);
+      $$.components = $4;
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec
     { $$.components = {};
@@ -1259,21 +1276,21 @@ ComponentTypeList:
 ComponentType:
     Type
     { std::cerr << context_.location << " WARNING: unnamed type\n";
-      $$ = ComponentType{{gen_anon_member_name(), $1}, false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+      $$ = ComponentType{{gen_anon_member_name(), $1}, false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
 |   Type OPTIONAL
     { std::cerr << context_.location << " WARNING: unnamed type\n";
-      $$ = ComponentType{{gen_anon_member_name(), $1}, true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+      $$ = ComponentType{{gen_anon_member_name(), $1}, true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
 |   Type DEFAULT SingleValue
-    { $$ = ComponentType{{gen_anon_member_name(), $1}, false, $3, absl::nullopt, StorageMode::static_ };
+    { $$ = ComponentType{{gen_anon_member_name(), $1}, false, $3, absl::nullopt, StorageMode::static_, false };
       std::cerr << context_.location << " WARNING: unnamed type\n"; }
 |   NamedType
-    { $$ = ComponentType{$1, false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+    { $$ = ComponentType{$1, false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
 |   NamedType OPTIONAL
-    { $$ = ComponentType{$1, true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+    { $$ = ComponentType{$1, true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
 |   NamedType DEFAULT SingleValue
-    { $$ = ComponentType{$1, false, $3, absl::nullopt, StorageMode::static_ }; }
+    { $$ = ComponentType{$1, false, $3, absl::nullopt, StorageMode::static_, false }; }
 |   COMPONENTS OF Type
-    { $$ = ComponentType{{}, false, absl::nullopt, $3, StorageMode::static_}; }
+    { $$ = ComponentType{{}, false, absl::nullopt, $3, StorageMode::static_, false}; }
 
 SequenceValue:
     "{" ComponentValueList "}"
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 1cc47a5..4f2d9f1 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -694,6 +694,7 @@ namespace yy {
       // DateType
       char dummy13[sizeof (DateType)];
 
+      // SimpleDefinedType
       // DefinedType
       // ParameterizedType
       // ExternalTypeReference
@@ -844,7 +845,6 @@ namespace yy {
       // GENERIC_IDENTIFIER_LOWERCASE
       // UsefulObjectClassReference
       // FieldName
-      // SimpleDefinedType
       // ModuleIdentifier
       // GlobalModuleReference
       // Symbol
@@ -1375,126 +1375,127 @@ namespace yy {
         S_ParameterizedValue = 255,              // ParameterizedValue
         S_ActualParameterList = 256,             // ActualParameterList
         S_ActualParameter = 257,                 // ActualParameter
-        S_ExternalTypeReference = 258,           // ExternalTypeReference
-        S_ExternalValueReference = 259,          // ExternalValueReference
-        S_TypeAssignment = 260,                  // TypeAssignment
-        S_ValueAssignment = 261,                 // ValueAssignment
-        S_ValueSetTypeAssignment = 262,          // ValueSetTypeAssignment
-        S_Type = 263,                            // Type
-        S_BuiltinType = 264,                     // BuiltinType
-        S_NamedType = 265,                       // NamedType
-        S_ValueWithoutTypeIdentifier = 266,      // ValueWithoutTypeIdentifier
-        S_Value = 267,                           // Value
-        S_ValueCommaListChoice = 268,            // ValueCommaListChoice
-        S_ValueChoice = 269,                     // ValueChoice
-        S_ValueSet = 270,                        // ValueSet
-        S_SequenceOfValues = 271,                // SequenceOfValues
-        S_BooleanType = 272,                     // BooleanType
-        S_BooleanValue = 273,                    // BooleanValue
-        S_IntegerType = 274,                     // IntegerType
-        S_NamedNumberList = 275,                 // NamedNumberList
-        S_NamedNumber = 276,                     // NamedNumber
-        S_SignedNumber = 277,                    // SignedNumber
-        S_EnumeratedType = 278,                  // EnumeratedType
-        S_Enumerations = 279,                    // Enumerations
-        S_Enumeration = 280,                     // Enumeration
-        S_EnumerationItem = 281,                 // EnumerationItem
-        S_RealType = 282,                        // RealType
-        S_BitStringType = 283,                   // BitStringType
-        S_NamedBitList = 284,                    // NamedBitList
-        S_NamedBit = 285,                        // NamedBit
-        S_OctetStringType = 286,                 // OctetStringType
-        S_NullType = 287,                        // NullType
-        S_SequenceType = 288,                    // SequenceType
-        S_ComponentTypeLists = 289,              // ComponentTypeLists
-        S_ComponentTypeList = 290,               // ComponentTypeList
-        S_ComponentType = 291,                   // ComponentType
-        S_SequenceOfType = 292,                  // SequenceOfType
-        S_SetType = 293,                         // SetType
-        S_SetOfType = 294,                       // SetOfType
-        S_ChoiceType = 295,                      // ChoiceType
-        S_AlternativeTypeLists = 296,            // AlternativeTypeLists
-        S_RootAlternativeTypeList = 297,         // RootAlternativeTypeList
-        S_AlternativeTypeList = 298,             // AlternativeTypeList
-        S_SelectionType = 299,                   // SelectionType
-        S_PrefixedType = 300,                    // PrefixedType
-        S_TaggedType = 301,                      // TaggedType
-        S_Tag = 302,                             // Tag
-        S_EncodingReference = 303,               // EncodingReference
-        S_ClassNumber = 304,                     // ClassNumber
-        S_Class = 305,                           // Class
-        S_ObjectIdentifierType = 306,            // ObjectIdentifierType
-        S_ObjectIdentifierValue = 307,           // ObjectIdentifierValue
-        S_ObjIdComponentsList = 308,             // ObjIdComponentsList
-        S_ObjIdComponents = 309,                 // ObjIdComponents
-        S_NameForm = 310,                        // NameForm
-        S_NumberForm = 311,                      // NumberForm
-        S_NameAndNumberForm = 312,               // NameAndNumberForm
-        S_RelativeOIDType = 313,                 // RelativeOIDType
-        S_IRIType = 314,                         // IRIType
-        S_IRIValue = 315,                        // IRIValue
-        S_FirstArcIdentifier = 316,              // FirstArcIdentifier
-        S_SubsequentArcIdentifier = 317,         // SubsequentArcIdentifier
-        S_ArcIdentifier = 318,                   // ArcIdentifier
-        S_RelativeIRIType = 319,                 // RelativeIRIType
-        S_EmbeddedPDVType = 320,                 // EmbeddedPDVType
-        S_ExternalType = 321,                    // ExternalType
-        S_TimeType = 322,                        // TimeType
-        S_TimeValue = 323,                       // TimeValue
-        S_DateType = 324,                        // DateType
-        S_TimeOfDayType = 325,                   // TimeOfDayType
-        S_DateTimeType = 326,                    // DateTimeType
-        S_DurationType = 327,                    // DurationType
-        S_CharacterStringType = 328,             // CharacterStringType
-        S_RestrictedCharacterStringType = 329,   // RestrictedCharacterStringType
-        S_UnrestrictedCharacterStringType = 330, // UnrestrictedCharacterStringType
-        S_ConstrainedType = 331,                 // ConstrainedType
-        S_TypeWithConstraint = 332,              // TypeWithConstraint
-        S_Constraint = 333,                      // Constraint
-        S_ConstraintSpec = 334,                  // ConstraintSpec
-        S_SubtypeConstraint = 335,               // SubtypeConstraint
-        S_ElementSetSpecs = 336,                 // ElementSetSpecs
-        S_ElementSetSpec = 337,                  // ElementSetSpec
-        S_Unions = 338,                          // Unions
-        S_UElems = 339,                          // UElems
-        S_Intersections = 340,                   // Intersections
-        S_IElems = 341,                          // IElems
-        S_IntersectionElements = 342,            // IntersectionElements
-        S_Elems = 343,                           // Elems
-        S_Exclusions = 344,                      // Exclusions
-        S_UnionMark = 345,                       // UnionMark
-        S_IntersectionMark = 346,                // IntersectionMark
-        S_Elements = 347,                        // Elements
-        S_SubtypeElements = 348,                 // SubtypeElements
-        S_SingleValue = 349,                     // SingleValue
-        S_ContainedSubtype = 350,                // ContainedSubtype
-        S_Includes = 351,                        // Includes
-        S_ValueRange = 352,                      // ValueRange
-        S_LowerEndpoint = 353,                   // LowerEndpoint
-        S_UpperEndpoint = 354,                   // UpperEndpoint
-        S_LowerEndValue = 355,                   // LowerEndValue
-        S_UpperEndValue = 356,                   // UpperEndValue
-        S_SizeConstraint = 357,                  // SizeConstraint
-        S_TypeConstraint = 358,                  // TypeConstraint
-        S_PermittedAlphabet = 359,               // PermittedAlphabet
-        S_InnerTypeConstraints = 360,            // InnerTypeConstraints
-        S_SingleTypeConstraint = 361,            // SingleTypeConstraint
-        S_MultipleTypeConstraints = 362,         // MultipleTypeConstraints
-        S_TypeConstraints = 363,                 // TypeConstraints
-        S_NamedConstraint = 364,                 // NamedConstraint
-        S_ComponentConstraint = 365,             // ComponentConstraint
-        S_ValueConstraint = 366,                 // ValueConstraint
-        S_PresenceConstraint = 367,              // PresenceConstraint
-        S_PatternConstraint = 368,               // PatternConstraint
-        S_PropertySettings = 369,                // PropertySettings
-        S_ExceptionSpec = 370,                   // ExceptionSpec
-        S_ExceptionIdentification = 371,         // ExceptionIdentification
-        S_typereference = 372,                   // typereference
-        S_identifier = 373,                      // identifier
-        S_valuereference = 374,                  // valuereference
-        S_modulereference = 375,                 // modulereference
-        S_objectclassreference = 376,            // objectclassreference
-        S_word = 377                             // word
+        S_ActualValue = 258,                     // ActualValue
+        S_ExternalTypeReference = 259,           // ExternalTypeReference
+        S_ExternalValueReference = 260,          // ExternalValueReference
+        S_TypeAssignment = 261,                  // TypeAssignment
+        S_ValueAssignment = 262,                 // ValueAssignment
+        S_ValueSetTypeAssignment = 263,          // ValueSetTypeAssignment
+        S_Type = 264,                            // Type
+        S_BuiltinType = 265,                     // BuiltinType
+        S_NamedType = 266,                       // NamedType
+        S_ValueWithoutTypeIdentifier = 267,      // ValueWithoutTypeIdentifier
+        S_Value = 268,                           // Value
+        S_ValueCommaListChoice = 269,            // ValueCommaListChoice
+        S_ValueChoice = 270,                     // ValueChoice
+        S_ValueSet = 271,                        // ValueSet
+        S_SequenceOfValues = 272,                // SequenceOfValues
+        S_BooleanType = 273,                     // BooleanType
+        S_BooleanValue = 274,                    // BooleanValue
+        S_IntegerType = 275,                     // IntegerType
+        S_NamedNumberList = 276,                 // NamedNumberList
+        S_NamedNumber = 277,                     // NamedNumber
+        S_SignedNumber = 278,                    // SignedNumber
+        S_EnumeratedType = 279,                  // EnumeratedType
+        S_Enumerations = 280,                    // Enumerations
+        S_Enumeration = 281,                     // Enumeration
+        S_EnumerationItem = 282,                 // EnumerationItem
+        S_RealType = 283,                        // RealType
+        S_BitStringType = 284,                   // BitStringType
+        S_NamedBitList = 285,                    // NamedBitList
+        S_NamedBit = 286,                        // NamedBit
+        S_OctetStringType = 287,                 // OctetStringType
+        S_NullType = 288,                        // NullType
+        S_SequenceType = 289,                    // SequenceType
+        S_ComponentTypeLists = 290,              // ComponentTypeLists
+        S_ComponentTypeList = 291,               // ComponentTypeList
+        S_ComponentType = 292,                   // ComponentType
+        S_SequenceOfType = 293,                  // SequenceOfType
+        S_SetType = 294,                         // SetType
+        S_SetOfType = 295,                       // SetOfType
+        S_ChoiceType = 296,                      // ChoiceType
+        S_AlternativeTypeLists = 297,            // AlternativeTypeLists
+        S_RootAlternativeTypeList = 298,         // RootAlternativeTypeList
+        S_AlternativeTypeList = 299,             // AlternativeTypeList
+        S_SelectionType = 300,                   // SelectionType
+        S_PrefixedType = 301,                    // PrefixedType
+        S_TaggedType = 302,                      // TaggedType
+        S_Tag = 303,                             // Tag
+        S_EncodingReference = 304,               // EncodingReference
+        S_ClassNumber = 305,                     // ClassNumber
+        S_Class = 306,                           // Class
+        S_ObjectIdentifierType = 307,            // ObjectIdentifierType
+        S_ObjectIdentifierValue = 308,           // ObjectIdentifierValue
+        S_ObjIdComponentsList = 309,             // ObjIdComponentsList
+        S_ObjIdComponents = 310,                 // ObjIdComponents
+        S_NameForm = 311,                        // NameForm
+        S_NumberForm = 312,                      // NumberForm
+        S_NameAndNumberForm = 313,               // NameAndNumberForm
+        S_RelativeOIDType = 314,                 // RelativeOIDType
+        S_IRIType = 315,                         // IRIType
+        S_IRIValue = 316,                        // IRIValue
+        S_FirstArcIdentifier = 317,              // FirstArcIdentifier
+        S_SubsequentArcIdentifier = 318,         // SubsequentArcIdentifier
+        S_ArcIdentifier = 319,                   // ArcIdentifier
+        S_RelativeIRIType = 320,                 // RelativeIRIType
+        S_EmbeddedPDVType = 321,                 // EmbeddedPDVType
+        S_ExternalType = 322,                    // ExternalType
+        S_TimeType = 323,                        // TimeType
+        S_TimeValue = 324,                       // TimeValue
+        S_DateType = 325,                        // DateType
+        S_TimeOfDayType = 326,                   // TimeOfDayType
+        S_DateTimeType = 327,                    // DateTimeType
+        S_DurationType = 328,                    // DurationType
+        S_CharacterStringType = 329,             // CharacterStringType
+        S_RestrictedCharacterStringType = 330,   // RestrictedCharacterStringType
+        S_UnrestrictedCharacterStringType = 331, // UnrestrictedCharacterStringType
+        S_ConstrainedType = 332,                 // ConstrainedType
+        S_TypeWithConstraint = 333,              // TypeWithConstraint
+        S_Constraint = 334,                      // Constraint
+        S_ConstraintSpec = 335,                  // ConstraintSpec
+        S_SubtypeConstraint = 336,               // SubtypeConstraint
+        S_ElementSetSpecs = 337,                 // ElementSetSpecs
+        S_ElementSetSpec = 338,                  // ElementSetSpec
+        S_Unions = 339,                          // Unions
+        S_UElems = 340,                          // UElems
+        S_Intersections = 341,                   // Intersections
+        S_IElems = 342,                          // IElems
+        S_IntersectionElements = 343,            // IntersectionElements
+        S_Elems = 344,                           // Elems
+        S_Exclusions = 345,                      // Exclusions
+        S_UnionMark = 346,                       // UnionMark
+        S_IntersectionMark = 347,                // IntersectionMark
+        S_Elements = 348,                        // Elements
+        S_SubtypeElements = 349,                 // SubtypeElements
+        S_SingleValue = 350,                     // SingleValue
+        S_ContainedSubtype = 351,                // ContainedSubtype
+        S_Includes = 352,                        // Includes
+        S_ValueRange = 353,                      // ValueRange
+        S_LowerEndpoint = 354,                   // LowerEndpoint
+        S_UpperEndpoint = 355,                   // UpperEndpoint
+        S_LowerEndValue = 356,                   // LowerEndValue
+        S_UpperEndValue = 357,                   // UpperEndValue
+        S_SizeConstraint = 358,                  // SizeConstraint
+        S_TypeConstraint = 359,                  // TypeConstraint
+        S_PermittedAlphabet = 360,               // PermittedAlphabet
+        S_InnerTypeConstraints = 361,            // InnerTypeConstraints
+        S_SingleTypeConstraint = 362,            // SingleTypeConstraint
+        S_MultipleTypeConstraints = 363,         // MultipleTypeConstraints
+        S_TypeConstraints = 364,                 // TypeConstraints
+        S_NamedConstraint = 365,                 // NamedConstraint
+        S_ComponentConstraint = 366,             // ComponentConstraint
+        S_ValueConstraint = 367,                 // ValueConstraint
+        S_PresenceConstraint = 368,              // PresenceConstraint
+        S_PatternConstraint = 369,               // PatternConstraint
+        S_PropertySettings = 370,                // PropertySettings
+        S_ExceptionSpec = 371,                   // ExceptionSpec
+        S_ExceptionIdentification = 372,         // ExceptionIdentification
+        S_typereference = 373,                   // typereference
+        S_identifier = 374,                      // identifier
+        S_valuereference = 375,                  // valuereference
+        S_modulereference = 376,                 // modulereference
+        S_objectclassreference = 377,            // objectclassreference
+        S_word = 378                             // word
       };
     };
 
@@ -1595,6 +1596,7 @@ namespace yy {
         value.move< DateType > (std::move (that.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -1784,7 +1786,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -2860,6 +2861,7 @@ switch (yykind)
         value.template destroy< DateType > ();
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -3049,7 +3051,6 @@ switch (yykind)
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -5890,8 +5891,8 @@ switch (yykind)
     /// Constants.
     enum
     {
-      yylast_ = 5042,     ///< Last index in yytable_.
-      yynnts_ = 225,  ///< Number of nonterminal symbols.
+      yylast_ = 5004,     ///< Last index in yytable_.
+      yynnts_ = 226,  ///< Number of nonterminal symbols.
       yyfinal_ = 6 ///< Termination state number.
     };
 
@@ -6036,6 +6037,7 @@ switch (yykind)
         value.copy< DateType > (YY_MOVE (that.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -6225,7 +6227,6 @@ switch (yykind)
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -6389,6 +6390,7 @@ switch (yykind)
         value.move< DateType > (YY_MOVE (s.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -6578,7 +6580,6 @@ switch (yykind)
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -6949,6 +6950,7 @@ namespace yy {
         value.YY_MOVE_OR_COPY< DateType > (YY_MOVE (that.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -7138,7 +7140,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -7286,6 +7287,7 @@ namespace yy {
         value.move< DateType > (YY_MOVE (that.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -7475,7 +7477,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -7623,6 +7624,7 @@ namespace yy {
         value.copy< DateType > (that.value);
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -7812,7 +7814,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -7959,6 +7960,7 @@ namespace yy {
         value.move< DateType > (that.value);
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -8148,7 +8150,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -8540,6 +8541,7 @@ namespace yy {
         yylhs.value.emplace< DateType > ();
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -8729,7 +8731,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -8980,8 +8981,12 @@ namespace yy {
     { feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
     break;
 
+  case 115: // SimpleDefinedType: ExternalTypeReference
+    { yylhs.value.as < DefinedType > () = yystack_[0].value.as < DefinedType > (); }
+    break;
+
   case 116: // SimpleDefinedType: typereference
-    { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < DefinedType > () = DefinedType{absl::nullopt, yystack_[0].value.as < std::string > (), {}}; }
     break;
 
   case 122: // UserDefinedConstraint: CONSTRAINED BY "{" UserDefinedConstraintParameter "}"
@@ -9139,7 +9144,7 @@ namespace yy {
     break;
 
   case 200: // ParameterizedType: SimpleDefinedType "{" ActualParameterList "}"
-    { yylhs.value.as < DefinedType > () = DefinedType{ absl::nullopt, yystack_[3].value.as < std::string > (), yystack_[1].value.as < std::vector<Type> > ()}; }
+    { yylhs.value.as < DefinedType > () = yystack_[3].value.as < DefinedType > (); yylhs.value.as < DefinedType > ().parameters = yystack_[1].value.as < std::vector<Type> > (); }
     break;
 
   case 202: // ActualParameterList: ActualParameter
@@ -9154,523 +9159,528 @@ namespace yy {
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
     break;
 
-  case 205: // ActualParameter: ValueWithoutTypeIdentifier
+  case 205: // ActualParameter: ActualValue
     { std::cerr << "Warning: Not yet dealing with value paramaters\n"; }
     break;
 
-  case 207: // ExternalTypeReference: typereference "." typereference
+  case 215: // ExternalTypeReference: typereference "." typereference
     { yylhs.value.as < DefinedType > () = DefinedType{yystack_[2].value.as < std::string > (), yystack_[0].value.as < std::string > (), {}}; }
     break;
 
-  case 209: // TypeAssignment: typereference "::=" Type
+  case 217: // TypeAssignment: typereference "::=" Type
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[2].value.as < std::string > (), TypeAssignment{yystack_[0].value.as < Type > ()}, {} }; }
     break;
 
-  case 210: // ValueAssignment: valuereference Type "::=" Value
+  case 218: // ValueAssignment: valuereference Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), ValueAssignment{yystack_[2].value.as < Type > (), yystack_[0].value.as < Value > ()}, {} }; }
     break;
 
-  case 211: // ValueSetTypeAssignment: typereference Type "::=" ValueSet
+  case 219: // ValueSetTypeAssignment: typereference Type "::=" ValueSet
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), TypeAssignment{yystack_[2].value.as < Type > ()}, {} }; }
     break;
 
-  case 212: // Type: BuiltinType
+  case 220: // Type: BuiltinType
     { yylhs.value.as < Type > () = yystack_[0].value.as < BuiltinType > (); }
     break;
 
-  case 213: // Type: ConstrainedType
+  case 221: // Type: ConstrainedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
     break;
 
-  case 214: // Type: DefinedType
+  case 222: // Type: DefinedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < DefinedType > (); }
     break;
 
-  case 215: // Type: SelectionType
+  case 223: // Type: SelectionType
     { feature_not_implemented(context_.location, context_.asn1_tree, "SelectionType"); }
     break;
 
-  case 216: // Type: TypeFromObject
+  case 224: // Type: TypeFromObject
     { feature_not_implemented(context_.location, context_.asn1_tree, "TypeFromObject"); }
     break;
 
-  case 217: // BuiltinType: ANY
+  case 225: // BuiltinType: ANY
         { yylhs.value.as < BuiltinType > () = AnyType(); }
     break;
 
-  case 218: // BuiltinType: BitStringType
+  case 226: // BuiltinType: BitStringType
                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BitStringType > (); }
     break;
 
-  case 219: // BuiltinType: BooleanType
+  case 227: // BuiltinType: BooleanType
                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BooleanType > (); }
     break;
 
-  case 220: // BuiltinType: CharacterStringType
+  case 228: // BuiltinType: CharacterStringType
                         { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < CharacterStringType > (); }
     break;
 
-  case 221: // BuiltinType: ChoiceType
+  case 229: // BuiltinType: ChoiceType
                { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ChoiceType > (); }
     break;
 
-  case 222: // BuiltinType: DateType
+  case 230: // BuiltinType: DateType
              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateType"); }
     break;
 
-  case 223: // BuiltinType: DateTimeType
+  case 231: // BuiltinType: DateTimeType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateTimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateTimeType"); }
     break;
 
-  case 224: // BuiltinType: DurationType
+  case 232: // BuiltinType: DurationType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DurationType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DurationType"); }
     break;
 
-  case 225: // BuiltinType: EmbeddedPDVType
+  case 233: // BuiltinType: EmbeddedPDVType
                     { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EmbeddedPDVType > (); feature_not_implemented(context_.location, context_.asn1_tree, "EmbeddedPDVType"); }
     break;
 
-  case 226: // BuiltinType: EnumeratedType
+  case 234: // BuiltinType: EnumeratedType
                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EnumeratedType > (); }
     break;
 
-  case 227: // BuiltinType: ExternalType
+  case 235: // BuiltinType: ExternalType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ExternalType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ExternalType"); }
     break;
 
-  case 228: // BuiltinType: GeneralizedTime
+  case 236: // BuiltinType: GeneralizedTime
                     { yylhs.value.as < BuiltinType > () = GeneralizedTimeType(); }
     break;
 
-  case 229: // BuiltinType: InstanceOfType
+  case 237: // BuiltinType: InstanceOfType
                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < InstanceOfType > (); feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
     break;
 
-  case 230: // BuiltinType: IntegerType
+  case 238: // BuiltinType: IntegerType
                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IntegerType > (); }
     break;
 
-  case 231: // BuiltinType: IRIType
+  case 239: // BuiltinType: IRIType
             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "IRIType"); }
     break;
 
-  case 232: // BuiltinType: NullType
+  case 240: // BuiltinType: NullType
              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < NullType > (); }
     break;
 
-  case 233: // BuiltinType: ObjectClassFieldType
+  case 241: // BuiltinType: ObjectClassFieldType
                          { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectClassFieldType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClassFieldType"); }
     break;
 
-  case 234: // BuiltinType: ObjectDescriptor
+  case 242: // BuiltinType: ObjectDescriptor
                      { yylhs.value.as < BuiltinType > () = ObjectDescriptorType(); }
     break;
 
-  case 235: // BuiltinType: ObjectIdentifierType
+  case 243: // BuiltinType: ObjectIdentifierType
                          { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectIdentifierType > (); }
     break;
 
-  case 236: // BuiltinType: OctetStringType
+  case 244: // BuiltinType: OctetStringType
                     { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < OctetStringType > (); }
     break;
 
-  case 237: // BuiltinType: RealType
+  case 245: // BuiltinType: RealType
              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RealType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RealType"); }
     break;
 
-  case 238: // BuiltinType: RelativeIRIType
+  case 246: // BuiltinType: RelativeIRIType
                     { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeIRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeIRIType"); }
     break;
 
-  case 239: // BuiltinType: RelativeOIDType
+  case 247: // BuiltinType: RelativeOIDType
                     { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeOIDType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeOIDType"); }
     break;
 
-  case 240: // BuiltinType: SequenceType
+  case 248: // BuiltinType: SequenceType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceType > (); }
     break;
 
-  case 241: // BuiltinType: SequenceOfType
+  case 249: // BuiltinType: SequenceOfType
                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceOfType > (); }
     break;
 
-  case 242: // BuiltinType: SetType
+  case 250: // BuiltinType: SetType
             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetType > (); }
     break;
 
-  case 243: // BuiltinType: SetOfType
+  case 251: // BuiltinType: SetOfType
               { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetOfType > (); }
     break;
 
-  case 244: // BuiltinType: PrefixedType
+  case 252: // BuiltinType: PrefixedType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < PrefixedType > (); }
     break;
 
-  case 245: // BuiltinType: TimeType
+  case 253: // BuiltinType: TimeType
              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeType"); }
     break;
 
-  case 246: // BuiltinType: TimeOfDayType
+  case 254: // BuiltinType: TimeOfDayType
                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeOfDayType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeOfDayType"); }
     break;
 
-  case 247: // BuiltinType: UTCTime
+  case 255: // BuiltinType: UTCTime
             { yylhs.value.as < BuiltinType > () = UTCTimeType(); feature_not_implemented(context_.location, context_.asn1_tree, "UTCTime"); }
     break;
 
-  case 248: // NamedType: identifier Type
+  case 256: // NamedType: identifier Type
     { yylhs.value.as < NamedType > () = NamedType{ yystack_[1].value.as < std::string > (), yystack_[0].value.as < Type > () }; }
     break;
 
-  case 249: // ValueWithoutTypeIdentifier: BooleanValue
+  case 257: // ValueWithoutTypeIdentifier: BooleanValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < BooleanValue > (); }
     break;
 
-  case 250: // ValueWithoutTypeIdentifier: IRIValue
+  case 258: // ValueWithoutTypeIdentifier: IRIValue
     { std::cerr << std::string("Warning: Unhandled field: IRIValue\n"); }
     break;
 
-  case 251: // ValueWithoutTypeIdentifier: ASN_NULL
+  case 259: // ValueWithoutTypeIdentifier: ASN_NULL
     { yylhs.value.as < Value > ().value_selection = NullValue{}; }
     break;
 
-  case 252: // ValueWithoutTypeIdentifier: TimeValue
+  case 260: // ValueWithoutTypeIdentifier: TimeValue
     { std::cerr << std::string("Warning: Unhandled field: TimeValue\n"); }
     break;
 
-  case 253: // ValueWithoutTypeIdentifier: bstring
+  case 261: // ValueWithoutTypeIdentifier: bstring
     { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 254: // ValueWithoutTypeIdentifier: hstring
+  case 262: // ValueWithoutTypeIdentifier: hstring
     { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 255: // ValueWithoutTypeIdentifier: cstring
+  case 263: // ValueWithoutTypeIdentifier: cstring
     { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 256: // ValueWithoutTypeIdentifier: CONTAINING Value
+  case 264: // ValueWithoutTypeIdentifier: CONTAINING Value
     { std::cerr << std::string("Warning: Unhandled field: CONTAINING\n"); }
     break;
 
-  case 257: // ValueWithoutTypeIdentifier: DefinedValue
+  case 265: // ValueWithoutTypeIdentifier: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
     break;
 
-  case 258: // ValueWithoutTypeIdentifier: GENERIC_IDENTIFIER_LOWERCASE "(" number ")"
+  case 266: // ValueWithoutTypeIdentifier: GENERIC_IDENTIFIER_LOWERCASE "(" number ")"
     { yylhs.value.as < Value > ().value_selection = NamedNumber{yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > (), {}}; }
     break;
 
-  case 260: // ValueWithoutTypeIdentifier: SignedNumber
+  case 268: // ValueWithoutTypeIdentifier: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 261: // ValueWithoutTypeIdentifier: realnumber
+  case 269: // ValueWithoutTypeIdentifier: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
     break;
 
-  case 262: // ValueWithoutTypeIdentifier: ObjectClassFieldType
+  case 270: // ValueWithoutTypeIdentifier: ObjectClassFieldType
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
     break;
 
-  case 263: // ValueWithoutTypeIdentifier: Value ":" Value
+  case 271: // ValueWithoutTypeIdentifier: Value ":" Value
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
     break;
 
-  case 268: // ValueWithoutTypeIdentifier: "{" SequenceOfValues "}"
+  case 276: // ValueWithoutTypeIdentifier: "{" SequenceOfValues "}"
     { yylhs.value.as < Value > ().value_selection = yystack_[1].value.as < std::vector<Value> > (); }
     break;
 
-  case 269: // ValueWithoutTypeIdentifier: ValueChoice
+  case 277: // ValueWithoutTypeIdentifier: ValueChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueChoice\n"); }
     break;
 
-  case 270: // ValueWithoutTypeIdentifier: OPTIONAL
+  case 278: // ValueWithoutTypeIdentifier: OPTIONAL
     { std::cerr << std::string("Warning: Unhandled field: OPTIONAL\n"); }
     break;
 
-  case 271: // ValueWithoutTypeIdentifier: ValueCommaListChoice
+  case 279: // ValueWithoutTypeIdentifier: ValueCommaListChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
     break;
 
-  case 272: // ValueWithoutTypeIdentifier: BY
+  case 280: // ValueWithoutTypeIdentifier: BY
     { std::cerr << std::string("Warning: Unhandled field: BY\n"); }
     break;
 
-  case 273: // ValueWithoutTypeIdentifier: WITH
+  case 281: // ValueWithoutTypeIdentifier: WITH
     { std::cerr << std::string("Warning: Unhandled field: WITH\n"); }
     break;
 
-  case 274: // Value: ValueWithoutTypeIdentifier
+  case 282: // Value: ValueWithoutTypeIdentifier
     { yylhs.value.as < Value > () = yystack_[0].value.as < Value > (); }
     break;
 
-  case 275: // Value: GENERIC_IDENTIFIER_UPPERCASE
+  case 283: // Value: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 282: // SequenceOfValues: Value
+  case 290: // SequenceOfValues: Value
     { yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
     break;
 
-  case 283: // SequenceOfValues: SequenceOfValues Value
+  case 291: // SequenceOfValues: SequenceOfValues Value
     { yylhs.value.as < std::vector<Value> > () = yystack_[1].value.as < std::vector<Value> > (); yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
     break;
 
-  case 285: // BooleanValue: TRUE
+  case 293: // BooleanValue: TRUE
     { yylhs.value.as < BooleanValue > () = {true}; }
     break;
 
-  case 286: // BooleanValue: FALSE
+  case 294: // BooleanValue: FALSE
     { yylhs.value.as < BooleanValue > () = {false}; }
     break;
 
-  case 287: // IntegerType: INTEGER
+  case 295: // IntegerType: INTEGER
     { yylhs.value.as < IntegerType > () = IntegerType{{}}; }
     break;
 
-  case 288: // IntegerType: INTEGER "{" NamedNumberList "}"
+  case 296: // IntegerType: INTEGER "{" NamedNumberList "}"
     { yylhs.value.as < IntegerType > () = IntegerType{yystack_[1].value.as < std::vector<NamedNumber> > ()}; }
     break;
 
-  case 289: // NamedNumberList: NamedNumber
+  case 297: // NamedNumberList: NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = {yystack_[0].value.as < NamedNumber > ()}; }
     break;
 
-  case 290: // NamedNumberList: NamedNumberList "," NamedNumber
+  case 298: // NamedNumberList: NamedNumberList "," NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = yystack_[2].value.as < std::vector<NamedNumber> > (); yylhs.value.as < std::vector<NamedNumber> > ().push_back(yystack_[0].value.as < NamedNumber > ()); }
     break;
 
-  case 291: // NamedNumber: identifier "(" SignedNumber ")"
+  case 299: // NamedNumber: identifier "(" SignedNumber ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > (), {} }; }
     break;
 
-  case 292: // NamedNumber: identifier "(" DefinedValue ")"
+  case 300: // NamedNumber: identifier "(" DefinedValue ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), 0, yystack_[1].value.as < DefinedValue > ().reference }; }
     break;
 
-  case 293: // SignedNumber: number
+  case 301: // SignedNumber: number
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 294: // SignedNumber: negativenumber
+  case 302: // SignedNumber: negativenumber
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 295: // EnumeratedType: ENUMERATED "{" Enumerations "}"
+  case 303: // EnumeratedType: ENUMERATED "{" Enumerations "}"
     { yylhs.value.as < EnumeratedType > () = yystack_[1].value.as < EnumeratedType > (); }
     break;
 
-  case 296: // Enumerations: Enumeration
+  case 304: // Enumerations: Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[0].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = false; }
     break;
 
-  case 297: // Enumerations: Enumeration "," "..." ExceptionSpec
+  case 305: // Enumerations: Enumeration "," "..." ExceptionSpec
     { yylhs.value.as < EnumeratedType > () = yystack_[3].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true; }
     break;
 
-  case 298: // Enumerations: Enumeration "," "..." ExceptionSpec "," Enumeration
+  case 306: // Enumerations: Enumeration "," "..." ExceptionSpec "," Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[5].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true; yylhs.value.as < EnumeratedType > ().root_size = yylhs.value.as < EnumeratedType > ().enum_values.size();
       yylhs.value.as < EnumeratedType > ().enum_values.insert(yylhs.value.as < EnumeratedType > ().enum_values.end(), yystack_[0].value.as < EnumeratedType > ().enum_values.begin(), yystack_[0].value.as < EnumeratedType > ().enum_values.end()); }
     break;
 
-  case 300: // Enumeration: EnumerationItem
+  case 308: // Enumeration: EnumerationItem
     { yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
     break;
 
-  case 301: // Enumeration: Enumeration "," EnumerationItem
+  case 309: // Enumeration: Enumeration "," EnumerationItem
     { yylhs.value.as < EnumeratedType > () = yystack_[2].value.as < EnumeratedType > (); yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
     break;
 
-  case 302: // EnumerationItem: identifier
+  case 310: // EnumerationItem: identifier
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 303: // EnumerationItem: NamedNumber
+  case 311: // EnumerationItem: NamedNumber
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < NamedNumber > ().name;
       yylhs.value.as < EnumerationValue > ().value = yystack_[0].value.as < NamedNumber > ().number; yylhs.value.as < EnumerationValue > ().reference = yystack_[0].value.as < NamedNumber > ().reference; }
     break;
 
-  case 305: // BitStringType: BIT STRING
+  case 313: // BitStringType: BIT STRING
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
     break;
 
-  case 306: // BitStringType: BIT STRING "{" NamedBitList "}"
+  case 314: // BitStringType: BIT STRING "{" NamedBitList "}"
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
     break;
 
-  case 313: // SequenceType: SEQUENCE "{" "}"
+  case 321: // SequenceType: SEQUENCE "{" "}"
     { yylhs.value.as < SequenceType > () = SequenceType(); }
     break;
 
-  case 314: // SequenceType: SEQUENCE "{" ComponentTypeLists "}"
+  case 322: // SequenceType: SEQUENCE "{" ComponentTypeLists "}"
     { yylhs.value.as < SequenceType > () = SequenceType{yystack_[1].value.as < Collection > ()}; }
     break;
 
-  case 315: // ComponentTypeLists: ComponentTypeList
+  case 323: // ComponentTypeLists: ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > (); }
     break;
 
-  case 316: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec
+  case 324: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = yystack_[3].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 317: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList
+  case 325: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[5].value.as < ComponentTypeList > ();
+      set_extension(yystack_[0].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 318: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..."
+  case 326: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..."
     { yylhs.value.as < Collection > ().components = yystack_[7].value.as < ComponentTypeList > ();
+      set_extension(yystack_[2].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[2].value.as < ComponentTypeList > ().begin(), yystack_[2].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 319: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..." "," ComponentTypeList
+  case 327: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..." "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[9].value.as < ComponentTypeList > ();
+      set_extension(yystack_[4].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[4].value.as < ComponentTypeList > ().begin(), yystack_[4].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 320: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList
-    { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > ();
+  case 328: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList
+    { set_extension(yystack_[0].value.as < ComponentTypeList > ());
+      yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 321: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList "," "..."
-    { yylhs.value.as < Collection > ().components = yystack_[2].value.as < ComponentTypeList > ();
+  case 329: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList "," "..."
+    { set_extension(yystack_[2].value.as < ComponentTypeList > ());
+      yylhs.value.as < Collection > ().components = yystack_[2].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 322: // ComponentTypeLists: "..." ExceptionSpec
+  case 330: // ComponentTypeLists: "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 323: // ComponentTypeLists: "..." ExceptionSpec "," "..."
+  case 331: // ComponentTypeLists: "..." ExceptionSpec "," "..."
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 324: // ComponentTypeList: ComponentType
+  case 332: // ComponentTypeList: ComponentType
     { yylhs.value.as < ComponentTypeList > () = ComponentTypeList{yystack_[0].value.as < ComponentType > ()}; }
     break;
 
-  case 325: // ComponentTypeList: ComponentTypeList "," ComponentType
+  case 333: // ComponentTypeList: ComponentTypeList "," ComponentType
     { yystack_[2].value.as < ComponentTypeList > ().push_back(yystack_[0].value.as < ComponentType > ()); yylhs.value.as < ComponentTypeList > () = yystack_[2].value.as < ComponentTypeList > (); }
     break;
 
-  case 326: // ComponentType: Type
+  case 334: // ComponentType: Type
     { std::cerr << context_.location << " WARNING: unnamed type\n";
-      yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[0].value.as < Type > ()}, false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+      yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[0].value.as < Type > ()}, false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 327: // ComponentType: Type OPTIONAL
+  case 335: // ComponentType: Type OPTIONAL
     { std::cerr << context_.location << " WARNING: unnamed type\n";
-      yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[1].value.as < Type > ()}, true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+      yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[1].value.as < Type > ()}, true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 328: // ComponentType: Type DEFAULT SingleValue
-    { yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[2].value.as < Type > ()}, false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_ };
+  case 336: // ComponentType: Type DEFAULT SingleValue
+    { yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[2].value.as < Type > ()}, false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_, false };
       std::cerr << context_.location << " WARNING: unnamed type\n"; }
     break;
 
-  case 329: // ComponentType: NamedType
-    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[0].value.as < NamedType > (), false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+  case 337: // ComponentType: NamedType
+    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[0].value.as < NamedType > (), false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 330: // ComponentType: NamedType OPTIONAL
-    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[1].value.as < NamedType > (), true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+  case 338: // ComponentType: NamedType OPTIONAL
+    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[1].value.as < NamedType > (), true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 331: // ComponentType: NamedType DEFAULT SingleValue
-    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[2].value.as < NamedType > (), false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_ }; }
+  case 339: // ComponentType: NamedType DEFAULT SingleValue
+    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[2].value.as < NamedType > (), false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 332: // ComponentType: COMPONENTS OF Type
-    { yylhs.value.as < ComponentType > () = ComponentType{{}, false, absl::nullopt, yystack_[0].value.as < Type > (), StorageMode::static_}; }
+  case 340: // ComponentType: COMPONENTS OF Type
+    { yylhs.value.as < ComponentType > () = ComponentType{{}, false, absl::nullopt, yystack_[0].value.as < Type > (), StorageMode::static_, false}; }
     break;
 
-  case 333: // SequenceOfType: SEQUENCE OF Type
+  case 341: // SequenceOfType: SEQUENCE OF Type
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 334: // SequenceOfType: SEQUENCE OF NamedType
+  case 342: // SequenceOfType: SEQUENCE OF NamedType
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 335: // SetType: SET "{" "}"
+  case 343: // SetType: SET "{" "}"
     { yylhs.value.as < SetType > () = SetType{}; }
     break;
 
-  case 336: // SetType: SET "{" ComponentTypeLists "}"
+  case 344: // SetType: SET "{" ComponentTypeLists "}"
     { yylhs.value.as < SetType > () = SetType{yystack_[1].value.as < Collection > ()}; }
     break;
 
-  case 337: // SetOfType: SET OF Type
+  case 345: // SetOfType: SET OF Type
     { yylhs.value.as < SetOfType > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 338: // SetOfType: SET OF NamedType
+  case 346: // SetOfType: SET OF NamedType
     { yylhs.value.as < SetOfType > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 339: // ChoiceType: CHOICE "{" AlternativeTypeLists "}"
+  case 347: // ChoiceType: CHOICE "{" AlternativeTypeLists "}"
     { yylhs.value.as < ChoiceType > () = ChoiceType{ yystack_[1].value.as < std::vector<NamedType> > (), StorageMode::static_ }; }
     break;
 
-  case 340: // AlternativeTypeLists: RootAlternativeTypeList
+  case 348: // AlternativeTypeLists: RootAlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
     break;
 
-  case 341: // RootAlternativeTypeList: AlternativeTypeList
+  case 349: // RootAlternativeTypeList: AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
     break;
 
-  case 342: // RootAlternativeTypeList: AlternativeTypeList "," "..."
+  case 350: // RootAlternativeTypeList: AlternativeTypeList "," "..."
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
     break;
 
-  case 343: // RootAlternativeTypeList: AlternativeTypeList "," "..." "," AlternativeTypeList
+  case 351: // RootAlternativeTypeList: AlternativeTypeList "," "..." "," AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().end(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
     break;
 
-  case 344: // AlternativeTypeList: NamedType
+  case 352: // AlternativeTypeList: NamedType
     { yylhs.value.as < std::vector<NamedType> > () = std::vector<NamedType> { yystack_[0].value.as < NamedType > () }; }
     break;
 
-  case 345: // AlternativeTypeList: AlternativeTypeList "," NamedType
+  case 353: // AlternativeTypeList: AlternativeTypeList "," NamedType
     { yystack_[2].value.as < std::vector<NamedType> > ().push_back( yystack_[0].value.as < NamedType > () ); yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
     break;
 
-  case 347: // PrefixedType: TaggedType
+  case 355: // PrefixedType: TaggedType
     { yylhs.value.as < PrefixedType > () = PrefixedType(yystack_[0].value.as < TaggedType > ()); }
     break;
 
-  case 348: // TaggedType: Tag Type
+  case 356: // TaggedType: Tag Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[1].value.as < Tag > (), TaggingMode::automatic, yystack_[0].value.as < Type > () }; }
     break;
 
-  case 349: // TaggedType: Tag IMPLICIT Type
+  case 357: // TaggedType: Tag IMPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::implicit, yystack_[0].value.as < Type > () }; }
     break;
 
-  case 350: // TaggedType: Tag EXPLICIT Type
+  case 358: // TaggedType: Tag EXPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::explicit_, yystack_[0].value.as < Type > () }; }
     break;
 
-  case 351: // Tag: "[" EncodingReference Class ClassNumber "]"
+  case 359: // Tag: "[" EncodingReference Class ClassNumber "]"
     { yylhs.value.as < Tag > () = yystack_[1].value.as < Tag > (); yylhs.value.as < Tag > ().class_ = yystack_[2].value.as < Class > (); }
     break;
 
-  case 354: // ClassNumber: number
+  case 362: // ClassNumber: number
     { if (yystack_[0].value.as < int64_t > () > std::numeric_limits<int>::max())
       {
         throw syntax_error(yystack_[0].location, "tag number out of range");
@@ -9678,235 +9688,235 @@ namespace yy {
       yylhs.value.as < Tag > () = Tag{ Class::context_specific, static_cast<int>(yystack_[0].value.as < int64_t > ()), {} }; }
     break;
 
-  case 355: // ClassNumber: DefinedValue
+  case 363: // ClassNumber: DefinedValue
     { yylhs.value.as < Tag > () = Tag{ Class::context_specific, 0, yystack_[0].value.as < DefinedValue > ().reference }; }
     break;
 
-  case 356: // Class: UNIVERSAL
+  case 364: // Class: UNIVERSAL
     { yylhs.value.as < Class > () = Class::universal; }
     break;
 
-  case 357: // Class: APPLICATION
+  case 365: // Class: APPLICATION
     { yylhs.value.as < Class > () = Class::application; }
     break;
 
-  case 358: // Class: PRIVATE
+  case 366: // Class: PRIVATE
     { yylhs.value.as < Class > () = Class::private_; }
     break;
 
-  case 359: // Class: %empty
+  case 367: // Class: %empty
     { yylhs.value.as < Class > () = Class::context_specific; }
     break;
 
-  case 361: // ObjectIdentifierValue: "{" ObjIdComponentsList "}"
+  case 369: // ObjectIdentifierValue: "{" ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
     break;
 
-  case 362: // ObjectIdentifierValue: "{" DefinedValue ObjIdComponentsList "}"
+  case 370: // ObjectIdentifierValue: "{" DefinedValue ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
     break;
 
-  case 363: // ObjIdComponentsList: ObjIdComponents
+  case 371: // ObjIdComponentsList: ObjIdComponents
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[0].value.as < ObjectIdComponentValue > ()); }
     break;
 
-  case 364: // ObjIdComponentsList: ObjIdComponents ObjIdComponentsList
+  case 372: // ObjIdComponentsList: ObjIdComponents ObjIdComponentsList
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[0].value.as < std::vector<ObjectIdComponentValue> > (); yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[1].value.as < ObjectIdComponentValue > ()); }
     break;
 
-  case 365: // ObjIdComponents: NameForm
+  case 373: // ObjIdComponents: NameForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
     break;
 
-  case 366: // ObjIdComponents: NumberForm
+  case 374: // ObjIdComponents: NumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
     break;
 
-  case 367: // ObjIdComponents: NameAndNumberForm
+  case 375: // ObjIdComponents: NameAndNumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
     break;
 
-  case 368: // NameForm: identifier
+  case 376: // NameForm: identifier
     { yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 369: // NumberForm: number
+  case 377: // NumberForm: number
     { yylhs.value.as < ObjectIdComponentValue > ().value = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 371: // NameAndNumberForm: identifier "(" NumberForm ")"
+  case 379: // NameAndNumberForm: identifier "(" NumberForm ")"
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[1].value.as < ObjectIdComponentValue > (); yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[3].value.as < std::string > (); }
     break;
 
-  case 389: // CharacterStringType: RestrictedCharacterStringType
+  case 397: // CharacterStringType: RestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
     break;
 
-  case 390: // CharacterStringType: UnrestrictedCharacterStringType
+  case 398: // CharacterStringType: UnrestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
     break;
 
-  case 391: // RestrictedCharacterStringType: BMPString
+  case 399: // RestrictedCharacterStringType: BMPString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::bmp_string; }
     break;
 
-  case 392: // RestrictedCharacterStringType: GeneralString
+  case 400: // RestrictedCharacterStringType: GeneralString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::general_string; }
     break;
 
-  case 393: // RestrictedCharacterStringType: GraphicString
+  case 401: // RestrictedCharacterStringType: GraphicString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::graphic_string; }
     break;
 
-  case 394: // RestrictedCharacterStringType: IA5String
+  case 402: // RestrictedCharacterStringType: IA5String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::ia5_string; }
     break;
 
-  case 395: // RestrictedCharacterStringType: ISO646String
+  case 403: // RestrictedCharacterStringType: ISO646String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::iso646_string; }
     break;
 
-  case 396: // RestrictedCharacterStringType: NumericString
+  case 404: // RestrictedCharacterStringType: NumericString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::numeric_string; }
     break;
 
-  case 397: // RestrictedCharacterStringType: PrintableString
+  case 405: // RestrictedCharacterStringType: PrintableString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::printable_string; }
     break;
 
-  case 398: // RestrictedCharacterStringType: TeletexString
+  case 406: // RestrictedCharacterStringType: TeletexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::teletex_string; }
     break;
 
-  case 399: // RestrictedCharacterStringType: T61String
+  case 407: // RestrictedCharacterStringType: T61String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::t61_string; }
     break;
 
-  case 400: // RestrictedCharacterStringType: UniversalString
+  case 408: // RestrictedCharacterStringType: UniversalString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::universal_string; }
     break;
 
-  case 401: // RestrictedCharacterStringType: UTF8String
+  case 409: // RestrictedCharacterStringType: UTF8String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::utf8_string; }
     break;
 
-  case 402: // RestrictedCharacterStringType: VideotexString
+  case 410: // RestrictedCharacterStringType: VideotexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::videotex_string; }
     break;
 
-  case 403: // RestrictedCharacterStringType: VisibleString
+  case 411: // RestrictedCharacterStringType: VisibleString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::visible_string; }
     break;
 
-  case 404: // UnrestrictedCharacterStringType: CHARACTER STRING
+  case 412: // UnrestrictedCharacterStringType: CHARACTER STRING
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::character_string; }
     break;
 
-  case 405: // ConstrainedType: Type Constraint
+  case 413: // ConstrainedType: Type Constraint
     { yylhs.value.as < Type > () = yystack_[1].value.as < Type > (); }
     break;
 
-  case 406: // ConstrainedType: TypeWithConstraint
+  case 414: // ConstrainedType: TypeWithConstraint
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); feature_not_implemented(context_.location, context_.asn1_tree, "TypeWithConstraint", "Not yet checking contraints. ");  }
     break;
 
-  case 407: // TypeWithConstraint: SET Constraint OF Type
+  case 415: // TypeWithConstraint: SET Constraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 408: // TypeWithConstraint: SET SizeConstraint OF Type
+  case 416: // TypeWithConstraint: SET SizeConstraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 409: // TypeWithConstraint: SEQUENCE Constraint OF Type
+  case 417: // TypeWithConstraint: SEQUENCE Constraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 410: // TypeWithConstraint: SEQUENCE SizeConstraint OF Type
+  case 418: // TypeWithConstraint: SEQUENCE SizeConstraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 411: // TypeWithConstraint: SET Constraint OF NamedType
+  case 419: // TypeWithConstraint: SET Constraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 412: // TypeWithConstraint: SET SizeConstraint OF NamedType
+  case 420: // TypeWithConstraint: SET SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 413: // TypeWithConstraint: SEQUENCE Constraint OF NamedType
+  case 421: // TypeWithConstraint: SEQUENCE Constraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 414: // TypeWithConstraint: SEQUENCE SizeConstraint OF NamedType
+  case 422: // TypeWithConstraint: SEQUENCE SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 415: // Constraint: "(" ConstraintSpec ExceptionSpec ")"
+  case 423: // Constraint: "(" ConstraintSpec ExceptionSpec ")"
     { feature_not_implemented(context_.location, context_.asn1_tree, "ConstraintSpec", "Not yet checking contraints. "); }
     break;
 
-  case 449: // SingleValue: BooleanValue
+  case 457: // SingleValue: BooleanValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < BooleanValue > (); }
     break;
 
-  case 450: // SingleValue: ASN_NULL
+  case 458: // SingleValue: ASN_NULL
     { yylhs.value.as < Value > ().value_selection = NullValue{}; }
     break;
 
-  case 451: // SingleValue: TimeValue
+  case 459: // SingleValue: TimeValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < TimeValue > (); }
     break;
 
-  case 452: // SingleValue: bstring
+  case 460: // SingleValue: bstring
     { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 453: // SingleValue: hstring
+  case 461: // SingleValue: hstring
     { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 454: // SingleValue: cstring
+  case 462: // SingleValue: cstring
     { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 455: // SingleValue: GENERIC_IDENTIFIER_UPPERCASE
+  case 463: // SingleValue: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 456: // SingleValue: DefinedValue
+  case 464: // SingleValue: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
     break;
 
-  case 457: // SingleValue: SignedNumber
+  case 465: // SingleValue: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 458: // SingleValue: realnumber
+  case 466: // SingleValue: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
     break;
 
-  case 497: // typereference: GENERIC_IDENTIFIER_UPPERCASE
+  case 505: // typereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 498: // identifier: GENERIC_IDENTIFIER_LOWERCASE
+  case 506: // identifier: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 499: // valuereference: GENERIC_IDENTIFIER_LOWERCASE
+  case 507: // valuereference: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 500: // modulereference: GENERIC_IDENTIFIER_UPPERCASE
+  case 508: // modulereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 501: // objectclassreference: GENERIC_IDENTIFIER_UPPERCASE
+  case 509: // objectclassreference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 502: // word: GENERIC_IDENTIFIER_UPPERCASE
+  case 510: // word: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
@@ -10262,548 +10272,566 @@ namespace yy {
   }
 
 
-  const short asn1_parser::yypact_ninf_ = -663;
+  const short asn1_parser::yypact_ninf_ = -672;
 
-  const short asn1_parser::yytable_ninf_ = -502;
+  const short asn1_parser::yytable_ninf_ = -510;
 
   const short
   asn1_parser::yypact_[] =
   {
-     -86,  -663,   173,   -86,    35,    75,  -663,  -663,   242,    19,
-    -663,    73,  -663,    87,   162,  -663,  -663,   136,    19,  -663,
-    -663,  -663,   158,   132,  -663,  -663,   193,   224,   240,   246,
-    -663,  -663,   355,   307,   221,  -663,  -663,  -663,   293,   248,
-     244,  -663,  -663,  -663,   307,   243,  -663,   343,  -663,   221,
-    -663,   222,  -663,    -1,  -663,   309,   245,  -663,  -663,   252,
-     253,  -663,  -663,   273,  -663,   348,   199,   199,  -663,  -663,
-     199,   280,  -663,   264,   199,  -663,   -15,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,   199,  -663,  -663,  -663,  2747,
-    3444,  -663,  -663,  -663,  -663,   -86,  -663,  -663,  -663,  -663,
-    -663,   304,  -663,  -663,   305,   287,  -663,  -663,  -663,   322,
-     294,  -663,  -663,  -663,  -663,  -663,   332,   296,  -663,  -663,
-     357,  -663,   321,  -663,  -663,  -663,  -663,  -663,    -6,     0,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    3543,  4042,   411,  -663,   290,  -663,  -663,   314,  -663,  -663,
-    3642,   299,  -663,  -663,   316,  -663,  -663,   317,   184,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  2850,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,   122,   315,   308,  4141,   187,    -5,   311,  -663,
-     323,   324,  -663,   300,  -663,   -50,    43,   300,  -663,  -663,
-    4141,   326,  2549,  1557,   366,   367,  4141,  2648,   370,   371,
-     336,  -663,  -663,  -663,   290,  -663,  -663,   326,   330,  -663,
-      88,  -663,    27,  -663,   320,  -663,   329,   326,   -41,   335,
-      20,   328,   338,  3543,   188,   328,  1813,   349,  -663,  4141,
-    4141,   326,    36,  4141,    18,   190,  2443,   452,    34,  -663,
-     300,  -663,   352,  -663,   341,  4141,   350,  -663,   356,   346,
-    -663,   354,   347,  -663,  -663,   358,    94,  -663,   354,   326,
-    -663,  3745,  -663,   397,   350,  -663,     2,    24,   362,   351,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,   432,    -7,
-     455,  4141,   458,  -663,   326,  -663,  -663,  2443,   479,  -663,
-     310,  1682,  1938,    96,   375,   377,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,   326,  -663,  -663,  -663,   350,  -663,  -663,
-     365,   -44,   -33,   -10,     1,  -663,   432,   449,  -663,    72,
-    -663,  4141,  -663,   395,   390,  -663,  -663,  -663,  -663,  -663,
-    -663,   398,   383,  4141,  4141,   326,  -663,  -663,   400,  4141,
-    4141,   201,    26,  -663,  4042,   199,  -663,  -663,  -663,  -663,
-      39,  -663,  -663,  -663,   385,  -663,  -663,   326,  2443,   385,
-    -663,  -663,  -663,  -663,  -663,  -663,   401,  -663,  2443,   209,
-    -663,  -663,  2443,  -663,   144,   171,  -663,   381,  -663,   403,
-     392,   326,   178,   146,   404,   399,  -663,  -663,  -663,  -663,
-     103,   405,  1938,  -663,   326,   326,   385,  -663,   326,  -663,
-    -663,  2443,  -663,  -663,    98,   416,  -663,  -663,   146,   408,
-     409,  -663,    34,   427,    34,  -663,  -663,  -663,   429,   117,
-    -663,   430,  -663,   -47,   326,  2293,  -663,  -663,   -46,    41,
-     410,  -663,   300,  4141,   421,   759,  -663,   759,  -663,  -663,
-    2949,  2194,  -663,   433,    12,  2443,  -663,   146,  -663,   326,
-     436,   426,   439,   428,   441,   422,  1813,   443,   450,  -663,
-    -663,  2194,  -663,  -663,  2194,  -663,   326,    30,  -663,    11,
-     326,  -663,   326,  -663,  -663,   326,  -663,   326,  -663,  4240,
-    3048,    43,   125,  -663,  -663,    32,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,   442,   328,   146,
-     146,   146,  1083,   569,  -663,  1813,  2443,  2443,  2443,  2443,
-    2443,   333,     9,   460,   146,   328,   424,  -663,   462,  -663,
-    -663,    55,  -663,   300,    61,   451,  -663,  -663,     5,  -663,
-    -663,   350,  -663,   453,   465,  -663,   326,  3147,  -663,   347,
-    -663,  -663,   350,  -663,  -663,  3844,   549,   146,  -663,  -663,
-      59,  -663,  1938,  -663,   471,  -663,   114,   134,  -663,   469,
-    -663,   461,   -10,  -663,  -663,   499,  -663,  -663,  -663,  -663,
-      38,   -18,    74,   -18,    40,   481,   201,  -663,  4141,  -663,
-    -663,  -663,  -663,  -663,   146,   472,  -663,   146,   146,   146,
-     146,   146,  -663,  -663,  -663,  -663,   475,  -663,   476,   478,
-     300,  2443,   470,  -663,  -663,  -663,   473,   477,  -663,   483,
-    -663,   480,   487,   241,   468,  2443,   142,   491,   482,   326,
-    -663,   485,   488,   492,  -663,  -663,   422,  -663,  1938,  -663,
-      29,  -663,  -663,  -663,  -663,    48,    56,    56,  -663,  -663,
-    -663,   514,  -663,  -663,   326,  -663,  -663,  -663,  -663,   497,
-     146,   300,  3246,  3943,  2411,  -663,    33,   146,  -663,   300,
-    -663,   300,  -663,  -663,    81,  1938,   488,   300,   300,  -663,
-    -663,  1432,  -663,  -663,  -663,  -663,  -663,   349,  -663,  -663,
-     759,  -663,  -663,  -663,   501,   300,   498,  -663,   500,  1432,
-    -663,   146,   495,   504,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,   492,  -663,  4809,  4897,  -663,   502,  -663,  -663,   401,
-    -663,  -663,   304,  -663,  -663,  -663,   305,   287,  -663,  -663,
-    -663,  -663,  2443,  -663,  -663,  -663,  -663,  -663,   322,  -663,
-    -663,  -663,   294,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,   332,  -663,   212,  -663,  -663,
-    -663,  -663,  -663,   357,   321,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,    -6,     0,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,   503,  -663,  -663,  -663,
-    -663,  -663,    98,  2069,  -663,   506,  1285,  -663,  -663,   326,
-     146,  -663,  -663,  -663,  4713,  -663,   300,  3345,   146,  -663,
-    -663,   490,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  4713,  -663,  4479,  -663,
-    -663,  -663,  4362,  -663,   507,   517,  4596,  -663,  -663,  -663,
-    -663,  3943,  -663,  -663,   509,  3943
+    -100,  -672,    81,  -100,   190,   139,  -672,  -672,   254,    29,
+    -672,   194,  -672,   241,   205,  -672,  -672,   215,    29,  -672,
+    -672,  -672,   204,   207,  -672,  -672,   251,   264,   266,   315,
+    -672,  -672,   371,   317,   242,  -672,  -672,  -672,   310,   269,
+     260,  -672,  -672,  -672,   317,   258,  -672,   357,  -672,   242,
+    -672,    78,  -672,     9,  -672,   324,   256,  -672,  -672,   259,
+     265,  -672,  -672,   281,  -672,   350,    15,    15,  -672,  -672,
+      15,   282,  -672,   267,    15,  -672,    -1,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,    15,  -672,  -672,  -672,  2709,
+    3406,  -672,  -672,  -672,  -672,  -100,  -672,  -672,  -672,  -672,
+    -672,   305,  -672,  -672,   307,   287,  -672,  -672,  -672,   321,
+     290,  -672,  -672,  -672,  -672,  -672,   330,   292,  -672,  -672,
+     349,  -672,   316,  -672,  -672,  -672,  -672,  -672,   145,   150,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    3505,  4004,   407,  -672,   291,  -672,  -672,   309,  -672,  -672,
+    3604,   293,  -672,  -672,   304,  -672,  -672,   319,   -41,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  2812,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,   162,   318,   297,  4103,   110,   -52,   299,  -672,
+     323,   325,  -672,   301,  -672,   -29,    26,   301,  -672,  -672,
+    4103,   328,  2511,  1525,   365,   368,  4103,  2610,   369,   373,
+     334,  -672,  -672,  -672,   291,  -672,  -672,   328,   327,  -672,
+      80,  -672,    20,  -672,   322,  -672,   333,   328,   155,   337,
+      38,   329,   340,  3505,   163,   329,  2156,   342,  -672,  4103,
+    4103,   328,    21,  4103,    46,   189,  2405,   448,    17,  -672,
+     301,  -672,   346,  -672,   338,  4103,   344,  -672,   354,   343,
+    -672,   358,   345,  -672,  -672,   347,   125,  -672,   358,   328,
+    -672,  3707,  -672,   399,   344,  -672,     5,     1,   362,   353,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,   433,    25,
+     452,  4103,   454,  -672,   328,  -672,  -672,  2405,   482,  -672,
+     311,  1650,  1775,   156,   374,   376,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,   328,  -672,  -672,  -672,   344,  -672,  -672,
+     364,   103,   112,   -27,   -18,  -672,   433,   445,  -672,   137,
+    -672,  4103,  -672,   381,   377,  -672,  -672,  -672,  -672,  -672,
+    -672,   382,   370,  4103,  4103,   328,  -672,  -672,   384,  4103,
+    4103,   295,    51,  -672,  4004,    15,  -672,  -672,  -672,  -672,
+      24,  -672,  -672,  -672,   372,  -672,  -672,   328,  2405,   372,
+    -672,  -672,  -672,  -672,  2405,  -672,  -672,   387,   378,  -672,
+     328,  -672,  -672,   379,  1775,  -672,   328,   328,   372,  -672,
+     328,  -672,  -672,  2405,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  2405,  -672,  -672,  -672,  2405,  -672,   147,   388,
+    -672,  -672,  -672,   -62,   383,   380,  -672,  -672,  -672,  -672,
+     386,    96,   390,  -672,    17,   391,    17,  -672,  -672,  -672,
+     393,   158,  -672,   395,  -672,    92,   328,  2255,  -672,  -672,
+     105,    43,   385,  -672,   301,  4103,   389,   332,  -672,   332,
+    -672,  -672,  2911,  2031,  -672,   398,   -20,  2405,  -672,   -62,
+    -672,   328,   405,   394,   411,   404,   421,   406,  2156,   422,
+     410,  -672,  -672,  2031,  -672,  -672,  2031,  -672,   328,   109,
+    -672,    39,   328,  -672,   328,  -672,  -672,   328,  -672,   328,
+    -672,  4202,  3010,    26,   167,  -672,  -672,    50,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,   423,
+     329,   -62,   -62,   965,  -672,  2156,    35,   428,   -62,   -62,
+    1122,   551,  2405,  2405,  2405,  2405,  2405,   329,   335,   408,
+    -672,   431,  -672,  -672,    27,  -672,   301,    63,   425,  -672,
+    -672,   -50,  -672,  -672,   344,  -672,   432,   436,  -672,   328,
+    3109,  -672,   345,  -672,  -672,   344,  -672,  -672,  3806,   525,
+     -62,  -672,  -672,   111,  -672,  1775,  -672,   446,  -672,   161,
+     177,  -672,   442,  -672,   434,   -27,  -672,  -672,    32,  -672,
+    -672,  -672,  -672,     3,   -24,   122,   -24,     8,   453,   295,
+    -672,  4103,  -672,  -672,  -672,  -672,  -672,   -62,  -672,  -672,
+    -672,   447,   -62,   -62,   -62,   -62,   -62,  -672,  -672,  -672,
+     449,  -672,   450,   456,   301,  2405,   438,  -672,  -672,  -672,
+     443,   444,  -672,   459,  -672,   455,   468,   236,   461,  2405,
+     181,   472,   465,   328,  -672,   470,   467,   471,  -672,  -672,
+     406,  -672,  1775,  -672,    22,  -672,  -672,  -672,  -672,    14,
+      19,    19,  -672,  -672,  -672,   506,  -672,  -672,   328,  -672,
+    -672,  -672,  -672,   474,   -62,   301,  3208,  3905,  2373,  -672,
+      60,   -62,  -672,   301,  -672,   301,  -672,  -672,    67,  1775,
+     467,   301,   301,  -672,  -672,  1400,  -672,  -672,  -672,  -672,
+    -672,   342,  -672,  -672,   332,  -672,  -672,  -672,   488,   301,
+     479,  -672,   480,  1400,  -672,   -62,   481,   496,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,   471,  -672,  4771,  4859,  -672,
+     486,  -672,  -672,   501,  -672,  -672,   305,  -672,  -672,  -672,
+     307,   287,  -672,  -672,  -672,  -672,  2405,  -672,  -672,  -672,
+    -672,  -672,   321,  -672,  -672,  -672,   290,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,   330,
+    -672,   183,  -672,  -672,  -672,  -672,  -672,   349,   316,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+     145,   150,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+     490,  -672,  -672,  -672,  -672,  -672,   147,   198,  1906,  -672,
+     492,  1253,  -672,  -672,   485,   328,   -62,  -672,  -672,  -672,
+    4675,  -672,   301,  3307,   -62,  -672,   501,   183,  -672,   483,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  4675,  -672,  4441,  -672,  -672,  -672,
+    4324,  -672,   497,   508,  4558,  -672,  -672,  -672,  -672,  3905,
+    -672,  -672,   499,  3905
   };
 
   const short
   asn1_parser::yydefact_[] =
   {
-       0,   500,     0,     2,     0,   147,     1,     3,   158,     0,
-     144,   145,   146,     0,   162,   155,   498,     0,   150,   153,
-     154,   152,   368,     0,   149,   157,     0,     0,     0,   164,
-     148,   151,     0,     0,   377,   161,   159,   160,     0,     0,
-       0,   378,   379,   375,     0,     0,   163,     0,   156,   377,
-     374,   169,   376,   171,   143,   173,     0,   497,   499,     0,
+       0,   508,     0,     2,     0,   147,     1,     3,   158,     0,
+     144,   145,   146,     0,   162,   155,   506,     0,   150,   153,
+     154,   152,   376,     0,   149,   157,     0,     0,     0,   164,
+     148,   151,     0,     0,   385,   161,   159,   160,     0,     0,
+       0,   386,   387,   383,     0,     0,   163,     0,   156,   385,
+     382,   169,   384,   171,   143,   173,     0,   505,   507,     0,
      170,   181,   183,   184,   186,     0,   175,     0,   168,   167,
        0,     0,     4,     0,   174,   176,     0,   191,   193,   194,
       95,    96,    97,    98,   165,   187,   189,   190,   192,     0,
-       0,   182,   185,   172,   177,     0,   188,    68,    11,   217,
-     312,     0,   391,   284,     0,     0,   385,   387,   388,     0,
-       0,   382,   228,   392,   393,   394,     0,   287,   395,   396,
-       0,   234,     0,   373,   397,   304,   372,   380,     0,     0,
-     399,   398,   383,   386,    10,   400,   247,   401,   402,   403,
-       0,     0,   353,   497,     0,   112,    67,     0,    83,   233,
-       0,     0,   216,   229,     0,   214,   197,   195,     0,   212,
-     219,   230,   226,   237,   218,   236,   232,   240,   241,   242,
-     243,   221,   215,   244,   347,     0,   235,   239,   231,   238,
-     225,   227,   245,   222,   246,   223,   224,   220,   389,   390,
-     213,   406,    84,     0,     0,     0,     0,   196,     0,   178,
-     179,   305,   404,     0,   381,     0,     0,     0,   360,   311,
+       0,   182,   185,   172,   177,     0,   188,    68,    11,   225,
+     320,     0,   399,   292,     0,     0,   393,   395,   396,     0,
+       0,   390,   236,   400,   401,   402,     0,   295,   403,   404,
+       0,   242,     0,   381,   405,   312,   380,   388,     0,     0,
+     407,   406,   391,   394,    10,   408,   255,   409,   410,   411,
+       0,     0,   361,   505,     0,   112,    67,     0,    83,   241,
+       0,     0,   224,   237,     0,   222,   197,   195,     0,   220,
+     227,   238,   234,   245,   226,   244,   240,   248,   249,   250,
+     251,   229,   223,   252,   355,     0,   243,   247,   239,   246,
+     233,   235,   253,   230,   254,   231,   232,   228,   397,   398,
+     221,   414,    84,     0,     0,     0,     0,   196,     0,   178,
+     179,   313,   412,     0,   389,     0,     0,     0,   368,   319,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,   497,    13,     6,     8,    12,    14,   209,     0,     7,
-     499,   111,     0,   104,     0,   108,   107,   110,   184,     0,
-     359,     0,     0,     0,     0,     0,     0,     0,   405,     0,
-       0,   348,     0,     0,     0,     0,     0,     0,     0,   180,
-       0,   344,     0,   340,   341,     0,   493,   303,     0,   296,
-     300,   302,   501,   114,     8,     0,     0,   289,     0,   333,
-     334,     0,   470,     0,   493,   313,   326,   329,     0,   315,
-     324,   293,   294,   458,   452,   453,   454,   384,     0,   312,
-       0,     0,     0,   286,     0,   460,   467,     0,     0,   285,
-       0,     0,     0,   455,   130,     0,   417,   119,   120,   121,
-     456,   199,   117,   471,   449,   457,   451,   493,   416,   418,
-     419,   422,     0,   424,     0,   427,     0,   430,   438,   440,
-     441,     0,   442,     0,   462,   444,   445,   443,   446,   447,
-     448,   198,     0,     0,     0,   337,   338,   335,     0,     0,
-       0,     0,     0,   103,     0,     0,   352,   357,   358,   356,
+       0,   505,    13,     6,     8,    12,    14,   217,     0,     7,
+     507,   111,     0,   104,     0,   108,   107,   110,   184,     0,
+     367,     0,     0,     0,     0,     0,     0,     0,   413,     0,
+       0,   356,     0,     0,     0,     0,     0,     0,     0,   180,
+       0,   352,     0,   348,   349,     0,   501,   311,     0,   304,
+     308,   310,   509,   114,     8,     0,     0,   297,     0,   341,
+     342,     0,   478,     0,   501,   321,   334,   337,     0,   323,
+     332,   301,   302,   466,   460,   461,   462,   392,     0,   320,
+       0,     0,     0,   294,     0,   468,   475,     0,     0,   293,
+       0,     0,     0,   463,   130,     0,   425,   119,   120,   121,
+     464,   199,   117,   479,   457,   465,   459,   501,   424,   426,
+     427,   430,     0,   432,     0,   435,     0,   438,   446,   448,
+     449,     0,   450,     0,   470,   452,   453,   451,   454,   455,
+     456,   198,     0,     0,     0,   345,   346,   343,     0,     0,
+       0,     0,     0,   103,     0,     0,   360,   365,   366,   364,
        0,    24,    25,    26,    93,    86,   102,    99,     0,   113,
-     261,   253,   254,   255,   266,   267,   251,   272,     0,   276,
-     270,   273,     0,   259,   497,   499,   206,   233,   257,     0,
-     202,   204,   205,     0,   271,   269,   249,   260,   250,   252,
-     198,     0,     0,   211,   350,   349,    94,   207,   346,    69,
-      85,     0,   251,   276,   275,   499,   262,   274,   210,     0,
-       0,   369,   370,     0,   363,   365,   366,   367,   368,     0,
-     307,     0,   339,     0,   248,     0,   299,   295,     0,     0,
-       0,   288,     0,     0,   322,     0,   327,     0,   330,   314,
-       0,     0,   423,     0,   140,     0,   472,   490,   491,     0,
-     476,    90,     0,    88,     0,     0,     0,     0,     0,   435,
-     434,     0,   437,   436,     0,   431,   459,     0,   463,     0,
-     409,   413,   410,   414,   336,   407,   411,   408,   412,    29,
-       0,     0,     0,    16,    18,    33,    19,    20,    21,    22,
-      23,   501,     9,   105,   106,   354,   355,     0,     0,   101,
-     256,   282,     0,     0,   200,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,   100,     0,     0,   370,     0,   361,
-     364,     0,   306,     0,     0,   342,   345,   495,     0,   494,
-     492,   493,   301,     0,     0,   290,   332,     0,   450,   455,
-     328,   331,   493,   325,   433,   129,     0,   141,   475,   473,
-       0,   474,     0,    87,     0,   439,     0,     0,   132,     0,
-     415,   420,   425,   428,   469,     0,   468,   461,   464,   208,
-      49,    36,    36,    36,    53,    55,     0,    30,     0,    31,
-      28,   351,    27,   268,   283,     0,   203,   277,   263,   279,
-     278,   280,   264,   265,   281,   362,     0,   308,     0,     0,
-       0,     0,   297,   292,   291,   323,   320,   316,   128,   111,
-     125,     0,     0,   110,     0,     0,     0,     0,   480,   485,
-      91,    89,   137,   134,   138,   131,     0,   201,     0,   465,
-       0,    47,    46,    34,    35,    45,    40,    40,    52,    51,
-      50,     0,    15,    17,    32,   258,   371,   309,   310,   343,
-     496,     0,     0,     0,     0,   122,     0,   142,   477,     0,
-     479,     0,   484,   482,   489,     0,   137,     0,     0,   133,
-     421,     0,    70,    48,    71,    72,    73,     0,    43,    42,
-       0,    38,    41,    37,     0,     0,   298,   321,   317,     0,
-     124,   123,   497,     0,   481,   487,   488,   486,   483,    92,
-     136,   135,   139,    24,    25,   503,   504,   505,   506,   251,
-     508,   509,   510,   391,   284,   272,   514,   515,   516,   517,
-     518,   519,   520,   385,   387,   523,   524,   388,   526,   527,
-     528,   529,   530,   531,   532,   533,   534,   382,   286,   537,
-     538,   539,   540,   541,   542,   543,   544,   276,   546,   547,
-     548,   549,   550,   551,   552,   553,   373,   270,   556,   557,
-     558,   559,   560,   304,   372,   380,   564,   565,   566,   567,
-     568,   569,   570,   383,   386,   285,   574,   575,   576,   577,
-     273,    66,   275,     0,    79,     0,     0,    77,    80,    81,
-      82,    65,    44,    39,    64,    54,     0,     0,    82,   478,
-      75,     0,    76,    78,   504,   507,   510,   511,   512,   513,
-     514,   515,   520,   521,   522,   525,   526,   530,   535,   536,
-     543,   545,   551,   552,   554,   555,   561,   562,   563,   564,
-     565,   571,   572,   573,   574,   578,    64,   502,    64,    56,
-      59,    58,     0,    62,   318,     0,    64,     5,    57,    61,
-      63,     0,    74,    60,   319,     0
+     213,   208,   209,   210,     0,   206,   211,     0,   202,   205,
+     204,   207,   212,     0,     0,   219,   358,   357,    94,   215,
+     354,    69,    85,     0,   269,   261,   262,   263,   274,   275,
+     259,   280,     0,   284,   278,   281,     0,   267,   283,   507,
+     270,   265,   282,   218,   279,   277,   257,   268,   258,   260,
+       0,   198,     0,   377,   378,     0,   371,   373,   374,   375,
+     376,     0,   315,     0,   347,     0,   256,     0,   307,   303,
+       0,     0,     0,   296,     0,     0,   330,     0,   335,     0,
+     338,   322,     0,     0,   431,     0,   140,     0,   480,   498,
+     499,     0,   484,    90,     0,    88,     0,     0,     0,     0,
+       0,   443,   442,     0,   445,   444,     0,   439,   467,     0,
+     471,     0,   417,   421,   418,   422,   344,   415,   419,   416,
+     420,    29,     0,     0,     0,    16,    18,    33,    19,    20,
+      21,    22,    23,   509,     9,   105,   106,   362,   363,     0,
+       0,   101,   290,     0,   200,     0,     0,     0,   100,   264,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+     378,     0,   369,   372,     0,   314,     0,     0,   350,   353,
+     503,     0,   502,   500,   501,   309,     0,     0,   298,   340,
+       0,   458,   463,   336,   339,   501,   333,   441,   129,     0,
+     141,   483,   481,     0,   482,     0,    87,     0,   447,     0,
+       0,   132,     0,   423,   428,   433,   436,   477,     0,   476,
+     469,   472,   216,    49,    36,    36,    36,    53,    55,     0,
+      30,     0,    31,    28,   359,    27,   214,   291,   203,   289,
+     276,     0,   285,   271,   287,   286,   288,   272,   273,   370,
+       0,   316,     0,     0,     0,     0,   305,   300,   299,   331,
+     328,   324,   128,   111,   125,     0,     0,   110,     0,     0,
+       0,     0,   488,   493,    91,    89,   137,   134,   138,   131,
+       0,   201,     0,   473,     0,    47,    46,    34,    35,    45,
+      40,    40,    52,    51,    50,     0,    15,    17,    32,   266,
+     379,   317,   318,   351,   504,     0,     0,     0,     0,   122,
+       0,   142,   485,     0,   487,     0,   492,   490,   497,     0,
+     137,     0,     0,   133,   429,     0,    70,    48,    71,    72,
+      73,     0,    43,    42,     0,    38,    41,    37,     0,     0,
+     306,   329,   325,     0,   124,   123,   505,     0,   489,   495,
+     496,   494,   491,    92,   136,   135,   139,    24,    25,   511,
+     512,   513,   514,   259,   516,   517,   518,   399,   292,   280,
+     522,   523,   524,   525,   526,   527,   528,   393,   395,   531,
+     532,   396,   534,   535,   536,   537,   538,   539,   540,   541,
+     542,   390,   294,   545,   546,   547,   548,   549,   550,   551,
+     552,   284,   554,   555,   556,   557,   558,   559,   560,   561,
+     381,   278,   564,   565,   566,   567,   568,   312,   380,   388,
+     572,   573,   574,   575,   576,   577,   578,   391,   394,   293,
+     582,   583,   584,   585,   281,    66,   283,   507,     0,    79,
+       0,     0,    77,    80,   241,    81,    82,    65,    44,    39,
+      64,    54,     0,     0,    82,   486,   259,   284,    75,     0,
+      76,    78,   512,   515,   518,   519,   520,   521,   522,   523,
+     528,   529,   530,   533,   534,   538,   543,   544,   551,   553,
+     559,   560,   562,   563,   569,   570,   571,   572,   573,   579,
+     580,   581,   582,   586,    64,   510,    64,    56,    59,    58,
+       0,    62,   326,     0,    64,     5,    57,    61,    63,     0,
+      74,    60,   327,     0
   };
 
   const short
   asn1_parser::yypgoto_[] =
   {
-    -663,   644,  -663,  -663,  -136,  -663,  -129,  -663,   407,  -663,
-    -663,    57,  -476,    86,  -663,  -663,  -663,  -192,  -663,    -3,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -205,  -563,
-    -663,  -663,  -663,  -662,  -457,  -663,   -22,  -663,  -663,  -663,
-    -663,  -663,  -150,  -146,   102,  -663,  -663,   419,  -663,   505,
-    -663,  -663,  -663,  -663,  -663,   578,  -663,   312,  -663,   104,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-      28,   -13,    -4,  -663,  -663,  -663,  -663,  -663,  -663,   659,
-    -663,   648,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,   607,  -663,   629,   615,  -120,   601,  -663,  -663,
-     -72,  -663,  -663,  -414,  -663,  -663,  -663,  -663,  -663,  -663,
-     374,  -663,  -188,  -229,  -253,  -663,  -663,     3,  -663,  -663,
-    -169,  -663,  -663,  -187,  -155,  -663,  -663,    16,  -432,  -663,
-    -663,  -663,   145,  -663,  -663,  -663,   474,  -543,  -442,  -663,
-    -663,  -663,  -663,  -663,  -663,    77,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,   -95,  -663,    71,   151,  -663,
-    -663,  -663,   682,  -663,   645,   654,  -663,  -663,  -663,  -663,
-     420,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -127,  -663,  -663,  -280,  -292,  -663,  -663,   218,  -663,   220,
-    -663,   369,  -663,  -663,   247,  -663,  -430,  -663,  -663,  -663,
-    -663,  -663,  -663,   121,  -121,  -663,  -663,  -663,  -663,  -663,
-    -338,  -663,  -663,  -663,  -663,  -663,  -663,  -258,  -663,   325,
-      -9,   530,    10,  -356,  -663
+    -672,   636,  -672,  -672,  -118,  -672,  -136,  -672,   397,  -672,
+    -672,    42,  -491,    84,  -672,  -672,  -672,  -227,  -672,   -19,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -221,  -561,
+    -672,  -672,  -672,  -671,  -433,  -672,   -34,  -672,  -672,  -672,
+    -672,  -672,  -166,  -162,    79,  -672,  -672,   409,  -672,   313,
+    -672,  -672,  -672,  -672,  -672,   558,  -672,   288,  -672,    85,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+       4,   -35,   -33,  -672,  -672,  -672,  -672,  -672,  -672,   638,
+    -672,   625,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,   587,  -672,   612,   599,  -121,   585,  -672,  -672,
+     348,  -672,  -672,  -424,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,   -63,  -672,  -191,  -672,   510,  -672,  -672,   -30,   289,
+    -672,   326,  -672,  -672,  -189,   314,  -672,  -672,    -3,  -444,
+    -672,  -672,  -672,   133,  -672,  -672,  -672,   463,  -553,  -459,
+    -672,  -672,  -672,  -672,  -672,  -672,    61,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -103,  -672,   126,   140,
+    -672,  -672,  -672,   675,  -672,   640,   643,  -672,  -672,  -672,
+    -672,   -86,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -113,  -672,  -672,  -277,  -303,  -672,  -672,   209,  -672,
+     208,  -672,   360,  -672,  -672,   227,  -672,  -427,  -672,  -672,
+    -672,  -672,  -672,  -672,   113,  -127,  -672,  -672,  -672,  -672,
+    -672,  -337,  -672,  -672,  -672,  -672,  -672,  -672,  -267,  -672,
+     534,    -9,    56,    10,  -348,  -672
   };
 
   const short
   asn1_parser::yydefgoto_[] =
   {
-       0,     2,     3,   815,   396,   223,   144,    77,   225,   226,
-     502,   503,   373,   416,   504,   505,   600,   655,   506,   702,
-     507,   508,   699,   509,   652,   510,   660,   662,   858,   859,
-     860,   861,   862,   863,   145,   146,   693,   694,   695,   805,
-     696,   806,   807,   808,   147,   148,    78,   314,   472,   149,
+       0,     2,     3,   821,   385,   223,   144,    77,   225,   226,
+     504,   505,   373,   398,   506,   507,   603,   659,   508,   706,
+     509,   510,   703,   511,   656,   512,   664,   666,   866,   867,
+     868,   869,   870,   871,   145,   146,   697,   698,   699,   810,
+     700,   811,   812,   813,   147,   148,    78,   314,   474,   149,
       79,    80,    81,    82,    83,   150,   232,   233,   234,   235,
-     151,   152,   153,   154,   315,   316,   317,   632,   318,   577,
-     578,   687,   643,   319,    65,     4,    10,    11,    12,    17,
+     151,   152,   153,   154,   315,   316,   317,   636,   318,   580,
+     581,   691,   647,   319,    65,     4,    10,    11,    12,    17,
       18,    19,    20,    14,    29,    39,    54,    55,    59,    67,
       73,    74,    75,   199,    76,    61,    62,    84,    85,   155,
-     398,   156,   321,   399,   400,   157,   322,    86,    87,    88,
-     323,   159,   287,   427,   403,   404,   405,   413,   522,   160,
-     406,   161,   276,   267,   407,   162,   268,   269,   270,   163,
-     164,   439,   440,   165,   166,   167,   288,   289,   290,   168,
-     169,   170,   171,   262,   263,   264,   172,   173,   174,   175,
-     240,   517,   370,   176,   259,   433,   434,   435,   436,   437,
-     177,   178,   408,    34,    45,    43,   179,   180,   181,   182,
-     409,   183,   184,   185,   186,   187,   188,   189,   190,   191,
-     248,   327,   328,   329,   330,   331,   332,   333,   334,   335,
-     336,   462,   481,   484,   337,   338,   339,   340,   341,   342,
-     343,   587,   344,   588,   345,   346,   347,   348,   569,   571,
-     637,   638,   683,   684,   718,   349,   350,   446,   550,   197,
-     193,   410,   198,   229,   811
+     421,   156,   321,   387,   388,   389,   157,   322,    86,    87,
+      88,   323,   159,   287,   422,   816,   424,   425,   395,   530,
+     160,   426,   161,   276,   267,   427,   162,   268,   269,   270,
+     163,   164,   441,   442,   165,   166,   167,   288,   289,   290,
+     168,   169,   170,   171,   262,   263,   264,   172,   173,   174,
+     175,   240,   519,   370,   176,   259,   435,   436,   437,   438,
+     439,   177,   178,   428,    34,    45,    43,   179,   180,   181,
+     182,   429,   183,   184,   185,   186,   187,   188,   189,   190,
+     191,   248,   327,   328,   329,   330,   331,   332,   333,   334,
+     335,   336,   464,   483,   486,   337,   338,   339,   340,   341,
+     342,   343,   590,   344,   591,   345,   346,   347,   348,   572,
+     574,   641,   642,   687,   688,   722,   349,   350,   448,   553,
+     197,   193,   351,   198,   229,   817
   };
 
   const short
   asn1_parser::yytable_[] =
   {
-      22,   214,   218,   428,   222,   231,   512,   215,   219,    22,
-       5,   224,   224,     5,   626,   261,   552,   402,   563,   473,
-     277,   236,   280,    15,   592,   560,   454,   561,   356,   804,
-      56,   419,   474,   419,   291,   292,   293,   294,   431,   295,
-     419,   296,   602,   515,   324,   291,   292,   804,   419,    95,
-     297,    97,   455,   367,   467,   419,   597,   586,   325,   431,
-     371,   372,   579,     1,   558,   618,   566,  -429,  -426,   477,
-     273,   653,   266,    98,   457,   545,   551,   274,   482,   479,
-      21,   210,   598,    71,   282,  -196,     8,   216,   650,    21,
-     658,   456,  -498,   303,   512,   654,   211,   252,   697,   194,
-      16,  -426,   211,    16,    16,   200,   700,   222,   213,   584,
-     715,   606,   480,   458,   224,   368,  -450,   224,   212,  -116,
-     213,   599,    70,  -450,   217,   519,   213,   651,   213,   659,
-     708,   213,   533,   252,   369,   520,  -429,   698,   213,   521,
-     309,   320,   324,   324,   804,   701,   621,   483,    57,    58,
-     228,   228,   363,   691,   134,   586,   325,   325,   511,    58,
-     585,    58,    25,   653,   364,   491,   493,    57,   534,    16,
-     716,   496,   498,     6,   717,   511,   512,   466,     1,   559,
-      58,   636,   712,     1,   230,    57,   432,   654,     1,    58,
-       1,    58,   272,   692,   265,  -466,   271,    26,   278,     9,
-     870,   281,  -466,   281,     1,    58,    23,   281,   281,    16,
-       1,    58,   567,  -498,  -498,   803,   275,   692,  -498,   451,
-    -497,    27,  -497,   352,  -497,   499,   500,  -118,   231,   501,
-     563,   452,    28,   803,  -497,   224,  -497,  -498,  -498,   320,
-     320,   531,   542,   324,   236,   514,  -116,   402,  -196,   438,
-     595,   441,   642,   228,   543,   546,   411,   325,    13,   645,
-     252,    30,   596,  -196,    16,   555,   430,   678,   430,   604,
-     813,   646,    33,   607,   608,   609,   610,   611,  -166,   679,
-     640,  -275,    53,   526,    32,  -275,   324,   527,   324,  -275,
-     549,   528,   324,   622,   554,   868,   402,   523,   516,    35,
-     325,  -498,   325,   868,   627,   247,   325,    38,   256,   378,
-     213,   421,   324,   213,   213,   324,   213,   430,   324,  -274,
-     512,   352,   352,  -274,    41,    42,   325,   374,   874,   325,
-      36,   379,   325,   207,  -287,  -287,   207,   538,  -287,   540,
-     320,   713,   568,   714,   281,   281,    37,   224,    57,    58,
-     281,   281,   371,   372,   469,   470,   690,   612,   613,    15,
-     537,    44,   537,   590,    46,   594,  -126,   213,   670,    47,
-     224,    48,   274,   547,   228,   563,    50,   553,    63,    51,
-     430,    66,   677,   320,   552,   320,   869,    68,   430,   320,
-      70,    63,    89,   719,    69,    63,   224,    71,   430,    63,
-     656,   657,   430,   324,    72,    92,    93,   201,   202,   320,
-      89,   203,   320,   204,   192,   320,   324,   325,   205,   206,
-     207,   711,   352,   438,   209,   438,   208,   239,   241,   629,
-     325,   430,   261,   563,   265,   242,   224,   245,   810,   271,
-     246,  -115,   430,   278,   430,   253,   254,   258,   260,   257,
-      16,   281,   213,   353,   354,   352,   818,   359,   360,   430,
-     361,   365,   311,   158,   196,   430,   238,   430,   362,   537,
-    -109,   352,   619,   412,   419,   430,   366,   442,   443,   324,
-     449,   447,   445,   448,   453,  -500,   411,   459,   460,   520,
-     461,   352,   468,   325,   352,   463,   450,   430,   465,   475,
-     320,   476,   478,   291,   292,   293,   294,  -432,   295,   228,
-     296,   275,   682,   320,   227,   237,   324,   546,   487,   297,
-     488,   489,  -118,   518,   244,   494,  -262,  -312,   524,   525,
-     325,   324,   430,   558,   441,   411,   430,   430,   430,   430,
-     430,   529,   523,   532,   530,   325,   535,   536,   281,   251,
-     810,   430,   539,   810,   430,   541,   544,   565,   557,   511,
-     570,   639,   303,   572,   573,   574,   576,   644,   575,   255,
-     580,   601,   581,   605,    58,   634,   320,   417,   584,   420,
-     623,   429,   352,    64,   279,   614,   286,   615,   620,   635,
-     355,   286,   624,   641,   647,   430,    64,    90,   648,   665,
-      64,   661,   666,   667,    64,   668,   676,   671,  -127,   309,
-     672,   265,   675,   320,   673,    90,   680,   377,   704,   681,
-     401,   674,   685,   414,   415,   814,   686,   418,   320,   819,
-     688,   430,   429,   326,   705,   816,  -501,   817,   865,   444,
-     -11,   -10,   872,   821,   871,   430,   875,     7,   559,    58,
-     376,   866,   710,   663,   703,   444,   823,   820,   352,   214,
-     218,   375,   271,   281,   281,   215,   219,   630,   195,   631,
-     639,    64,   639,   720,   689,   464,   513,    31,   644,   722,
-      40,    94,    60,   721,   352,    91,    96,   706,   617,   238,
-      63,   358,   616,    24,    52,   352,   265,   669,    49,   582,
-     812,   352,     0,   429,   583,   485,   649,     0,   564,     0,
-     430,     0,     0,   429,     0,   486,     0,   429,     0,   352,
-       0,     0,     0,     0,     0,     0,     0,   490,   492,     0,
-       0,   326,   326,   495,   497,     0,     0,     0,   237,     0,
-       0,     0,     0,   351,     0,     0,   429,     0,     0,     0,
-       0,   397,   430,     0,     0,     0,     0,     0,     0,     0,
-       0,   426,     0,   291,   292,   293,   294,     0,   295,     0,
-     296,     0,     0,     0,     0,     0,     0,     0,     0,   297,
-       0,     0,     0,     0,     0,     0,     0,     0,   351,     0,
-     429,     0,     0,   558,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,   271,   281,     0,
-       0,     0,   426,   352,     0,     0,   352,     0,     0,   548,
-       0,     0,   303,     0,     0,     0,     0,   556,     0,     0,
-       0,     0,   326,     0,   286,     0,     0,     0,     0,     0,
-       0,   351,   351,     0,     0,     0,     0,   429,     0,     0,
-     401,   429,   429,   429,   429,   429,     0,     0,     0,     0,
-       0,     0,   281,     0,     0,     0,   281,     0,     0,   309,
-       0,     0,     0,   591,   593,   326,     0,   326,     0,     0,
-       0,   326,     0,   426,     0,     0,     0,     0,     0,     0,
-     192,     0,     0,   426,    64,    64,     0,   426,     0,   401,
-     351,   326,     0,     0,   326,     0,     0,   326,   559,    58,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,   426,     0,     0,     0,
-       0,   286,     0,     0,     0,     0,     0,     0,     0,   633,
-       0,     0,   351,     0,     0,     0,   429,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-     429,     0,   351,     0,   351,     0,     0,     0,     0,     0,
-     426,     0,   664,     0,     0,   351,     0,     0,     0,   351,
-       0,   397,     0,     0,     0,   351,     0,   351,     0,     0,
-       0,   351,   326,     0,     0,     0,     0,     0,     0,   429,
-       0,   420,     0,     0,     0,   326,     0,     0,     0,     0,
-       0,   351,     0,     0,   351,     0,     0,   351,     0,   589,
-       0,     0,     0,     0,     0,     0,     0,   426,     0,     0,
-     397,   426,   426,   426,   426,   426,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,   286,   286,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,   589,     0,     0,   809,   589,   429,   326,     0,
-       0,   351,     0,     0,   351,     0,     0,     0,     0,     0,
-       0,     0,     0,   809,     0,     0,     0,   291,   292,   380,
-     381,     0,   382,     0,   383,     0,     0,     0,     0,     0,
-       0,     0,   351,   297,     0,   326,     0,   384,   385,     0,
-       0,     0,     0,    98,     0,   351,     0,   422,     0,     0,
-     326,     0,     0,   387,     0,     0,   426,     0,     0,     0,
-     388,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-     426,     0,     0,     0,     0,     0,   303,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,   423,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,   390,     0,     0,     0,     0,   809,   351,   426,
-     809,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,   286,     0,   309,   134,     0,   397,     0,     0,     0,
-       0,     0,     0,   391,     0,     0,     0,   392,   603,     0,
-       0,     0,     0,     0,   397,   351,    23,     0,     0,     0,
-       0,     0,     0,     0,   393,     0,     0,     0,     0,     0,
-     351,     0,   424,   425,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,   286,     0,   426,     0,   286,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+      22,   215,   219,   566,   224,   224,   555,   630,   475,    22,
+       5,   595,   261,     5,   514,   214,   218,   456,   277,   280,
+     236,   433,   222,   231,   809,   356,   158,   196,   517,   605,
+     563,   433,   564,    15,   569,   476,   291,   292,   293,   294,
+      56,   295,   809,   296,    97,   371,   372,   291,   292,     1,
+    -437,   459,   297,   654,   582,   457,    98,   401,   662,   484,
+     479,   401,   589,    95,   701,   657,   561,   622,   401,   704,
+     274,   367,  -116,   401,   600,   532,   213,   227,   237,   533,
+     247,     6,   401,   534,  -506,   213,   252,   244,   273,   658,
+     460,   625,   655,   266,   458,   303,   719,   663,   282,   194,
+     601,   608,   213,   702,   514,   200,   213,   224,   705,    64,
+     224,   587,   251,   291,   292,   293,   294,   527,   295,  -437,
+     296,    16,    64,    90,   712,   222,    64,   326,   485,   297,
+      64,   213,   255,   368,  -166,    21,    70,   134,    53,   602,
+     809,    90,   309,   561,    21,   363,   695,   279,  -458,   286,
+     228,   228,   369,   355,   286,  -458,   720,   364,    57,    58,
+     721,   589,   493,   495,    57,    58,     1,   230,   498,   500,
+      57,     1,   303,     1,    58,   272,     1,    58,   514,    16,
+     377,   562,    58,   390,   513,    58,   396,   397,   587,    58,
+     400,   468,     1,    58,   265,    57,   271,    64,   278,   878,
+     513,   281,   446,   281,   808,  -506,  -506,   281,   281,   716,
+    -506,   657,     1,    58,   548,  -434,   275,   566,   446,   309,
+    -118,   696,   808,   352,   481,   326,   326,   554,   224,  -506,
+    -506,   256,   210,   640,   538,   658,   213,   216,   466,   588,
+      26,     8,    16,   236,   516,   696,   231,   211,  -434,   440,
+     453,   443,   211,   228,   549,    16,   393,   482,   562,    58,
+    -474,    16,   454,     9,    27,   558,   432,  -474,   432,   212,
+      13,   213,   644,  -505,   217,    28,   213,   819,   488,    71,
+    -505,  -196,  -505,   545,   378,  -505,  -116,   626,  -196,   213,
+     492,   494,   598,   252,  -505,   546,   497,   499,   631,   646,
+     252,   237,   649,  -196,   599,   876,   682,   207,   326,  -295,
+     403,    16,   431,   876,   650,   213,    25,   432,   683,   501,
+     502,   352,   352,   503,   531,   374,   882,    23,  -506,   379,
+      32,   541,   514,   543,    41,    42,   291,   292,   293,   294,
+      30,   295,   224,   296,   281,   281,   717,    33,   718,   694,
+     281,   281,   297,   371,   372,   471,   472,    35,   571,   617,
+     618,  -126,   213,   431,   566,   224,   561,   274,   660,   661,
+      36,   326,    37,   326,   228,    15,    38,   326,   555,   877,
+     432,    46,    44,   593,   551,   597,   723,    48,   432,   224,
+      47,    50,   559,    51,   432,   303,    66,   326,    68,   286,
+     326,    69,    70,   326,   352,    71,    72,    92,   201,    93,
+     202,   203,   204,   432,   205,   390,   207,   206,   208,   209,
+      64,    64,   432,   239,   566,   440,   432,   440,   246,   241,
+     242,   245,   224,   261,   431,   254,   265,   257,   594,   596,
+     431,   271,   309,  -115,   432,   278,   432,   258,   253,   260,
+     633,    16,   353,   281,   213,   354,   359,   352,   361,   431,
+     360,   432,   390,   365,   311,   362,   394,   432,   431,   432,
+     401,   444,   431,   352,  -109,   445,   447,   432,   366,   449,
+     450,   562,    58,  -508,   451,   452,   455,   461,   393,   326,
+     462,   463,   465,   352,   467,   470,   352,   286,   477,   432,
+     478,   480,   326,  -440,   489,   637,  -118,   490,   491,   496,
+     520,   228,   524,   275,   531,   525,   542,   526,   549,   544,
+     535,   547,   568,   431,   537,   536,   560,   325,   539,   573,
+     686,   575,   584,   432,   513,   393,   576,   443,   668,   324,
+     432,   577,   432,   432,   432,   432,   432,   592,   578,   583,
+     579,   281,   604,   609,   432,   611,   619,   432,    58,   627,
+     392,   320,   624,   628,   643,   639,   326,   651,   645,   420,
+     648,   652,   391,   665,   669,   675,   670,   671,   638,   431,
+     676,   677,   592,   672,  -127,   352,   431,    63,   431,   431,
+     431,   431,   431,   679,   386,   592,   678,   684,   432,   680,
+      63,    89,   685,   326,    63,   690,   434,   689,    63,   692,
+     708,   709,   820,   286,   286,   265,   822,   823,   326,    89,
+     420,   825,  -509,   192,   -11,   325,   325,  -320,   -10,   829,
+    -270,   873,   815,   880,   879,   432,   883,   324,   324,     7,
+     376,   667,   707,   874,   714,   831,   828,   634,   195,   432,
+     815,   375,   515,   635,   693,   724,    31,    40,   725,   320,
+     320,    94,   352,   215,   219,    60,   271,   281,   281,    91,
+      96,   818,   710,   523,   643,   238,   643,   214,   218,   621,
+     358,   431,   648,   726,   620,   673,    24,    49,   352,    52,
+     567,   420,   585,     0,   586,   431,   487,   420,     0,   352,
+     265,   653,     0,     0,     0,   352,     0,     0,   325,     0,
+       0,     0,     0,     0,   432,     0,   420,     0,   518,     0,
+     324,     0,     0,   352,     0,   420,     0,     0,     0,   420,
+       0,     0,     0,     0,   431,     0,     0,     0,     0,     0,
+       0,     0,   320,     0,     0,   815,     0,     0,   815,     0,
+       0,   431,     0,     0,     0,     0,   432,     0,     0,     0,
+     286,   552,     0,     0,     0,   557,   423,     0,     0,   431,
+       0,   325,     0,   325,     0,     0,     0,   325,     0,     0,
+     420,     0,   540,   324,   540,   324,   399,     0,   402,   324,
+     430,     0,   392,     0,     0,   550,     0,   325,     0,   556,
+     325,     0,   431,   325,   391,   320,     0,   320,     0,   324,
+       0,   320,   324,   271,   281,   324,   286,   469,   352,     0,
+     286,   352,     0,     0,     0,     0,   386,     0,     0,     0,
+       0,   320,     0,     0,   320,     0,   420,   320,     0,   392,
+       0,   430,     0,   420,     0,   420,   420,   420,   420,   420,
+       0,   391,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,   431,     0,     0,   431,     0,     0,
+     281,     0,     0,   386,   281,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   521,   325,
+       0,     0,   540,     0,   522,   623,     0,     0,   238,    63,
+       0,   324,   325,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   430,   528,   324,     0,     0,     0,   430,     0,
+       0,     0,   529,   320,     0,     0,   522,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,   320,   430,   420,     0,
+       0,     0,     0,     0,     0,     0,   430,     0,     0,     0,
+     430,     0,   420,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,   325,     0,     0,   291,
+     292,   404,   405,     0,   406,     0,   407,   570,   324,     0,
+       0,     0,     0,     0,     0,   297,     0,     0,     0,   408,
+     409,   420,     0,     0,     0,    98,     0,     0,     0,   410,
+     320,   430,     0,   325,     0,   411,     0,     0,   814,     0,
+       0,     0,   412,     0,     0,   324,     0,     0,   325,     0,
+       0,     0,     0,     0,     0,     0,   814,     0,   303,     0,
+     324,     0,     0,   607,     0,     0,     0,   320,     0,     0,
+     607,   413,   612,   613,   614,   615,   616,     0,     0,     0,
+       0,     0,   320,     0,   414,     0,     0,   430,     0,   420,
+       0,     0,     0,     0,   430,     0,   430,   430,   430,   430,
+     430,     0,     0,     0,     0,   309,   134,     0,     0,     0,
+       0,     0,     0,     0,     0,   415,     0,     0,     0,   416,
+     606,     0,     0,     0,     0,     0,     0,     0,    23,     0,
+       0,     0,   192,     0,     0,     0,   417,     0,     0,     0,
+       0,     0,     0,     0,   418,   419,     0,     0,     0,     0,
+       0,   814,     0,     0,   814,     0,   291,   292,   404,   405,
+       0,   406,     0,   407,     0,   674,     0,     0,     0,     0,
+       0,     0,   297,     0,     0,     0,   408,   409,     0,   681,
+       0,     0,    98,     0,     0,     0,   410,     0,     0,   430,
+       0,     0,   411,     0,     0,     0,     0,     0,     0,   412,
+       0,     0,     0,   430,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,   303,     0,     0,   715,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   413,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,   414,   430,     0,   402,     0,     0,     0,     0,     0,
+       0,     0,     0,   824,     0,     0,     0,     0,     0,     0,
+       0,     0,   309,   134,     0,     0,     0,     0,     0,     0,
+       0,     0,   415,     0,     0,     0,   416,   610,     0,     0,
+       0,     0,     0,     0,     0,    23,   529,   291,   292,   404,
+     405,     0,   406,   417,   407,     0,     0,     0,     0,     0,
+       0,   418,   419,   297,     0,    97,     0,   408,   409,     0,
+     430,     0,   729,   730,   731,    99,   732,   733,   734,   735,
+     736,   737,   738,   739,   740,   741,   742,   743,   744,   745,
+     746,   747,   748,   749,   750,   751,   752,   753,   754,   755,
+     756,   757,   758,   759,   760,   761,   762,   763,   112,   113,
+     114,   115,   764,   765,   766,   767,   768,   769,   770,   771,
+     772,   118,   773,   774,   775,   776,   119,   777,   121,   778,
+     779,   780,   781,   782,   783,   784,   785,   124,   786,   787,
+     788,   789,   790,   791,   792,   793,   794,   795,   130,   796,
+     131,   797,   798,   799,   800,   801,   802,   803,   135,   136,
+     137,   138,   139,   804,     0,     0,     0,   416,   830,     0,
+       0,   142,     0,     0,     0,     0,    23,     0,     0,     0,
+     805,     0,     0,     0,   417,     0,     0,     0,     0,     0,
+       0,     0,   806,   807,   291,   292,   404,   405,     0,   406,
+       0,   407,     0,     0,     0,     0,     0,     0,     0,     0,
+     297,     0,    97,     0,   727,   728,     0,     0,     0,   729,
+     730,   731,    99,   732,   733,   734,   735,   736,   737,   738,
+     739,   740,   741,   742,   743,   744,   745,   746,   747,   748,
+     749,   750,   751,   752,   753,   754,   755,   756,   757,   758,
+     759,   760,   761,   762,   763,   112,   113,   114,   115,   764,
+     765,   766,   767,   768,   769,   770,   771,   772,   118,   773,
+     774,   775,   776,   119,   777,   121,   778,   779,   780,   781,
+     782,   783,   784,   785,   124,   786,   787,   788,   789,   790,
+     791,   792,   793,   794,   795,   130,   796,   131,   797,   798,
+     799,   800,   801,   802,   803,   135,   136,   137,   138,   139,
+     804,     0,     0,     0,   416,     0,     0,     0,   142,   291,
+     292,   293,   294,    23,   295,     0,   296,   805,     0,     0,
+       0,   417,     0,     0,     0,   297,     0,    97,     0,   806,
+     807,     0,     0,     0,     0,    98,   298,    99,     0,   299,
+       0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
+       0,   300,   301,   106,   107,     0,     0,   108,   109,   302,
+       0,     0,   110,     0,     0,     0,     0,   111,   303,   304,
+     112,   113,   114,   115,     0,     0,     0,     0,   305,   116,
+       0,   117,     0,   118,     0,   306,     0,     0,   119,   120,
+     121,   122,     0,   123,     0,   307,     0,     0,     0,   124,
+       0,   125,   126,   127,   128,   129,   308,   211,     0,     0,
+     130,     0,   131,   132,   133,   309,   134,     0,     0,     0,
+     135,   136,   137,   138,   139,   310,     0,     0,     0,   311,
+       0,   312,     0,   142,   291,   292,   293,   294,     0,   295,
+       0,   296,     0,     0,     0,     0,     0,     0,     0,     0,
+     297,     0,    97,     0,   313,   230,     0,     0,     0,     0,
+      98,   298,    99,     0,   299,     0,     0,   101,   102,   103,
+       0,   104,   105,     0,     0,     0,     0,     0,   106,   107,
+       0,     0,   108,   109,     0,     0,     0,   110,     0,     0,
+       0,     0,   111,   303,   304,   112,   113,   114,   115,     0,
+       0,     0,     0,   305,   116,     0,   117,     0,   118,     0,
+     306,     0,     0,   119,   120,   121,   122,     0,   123,     0,
+     307,     0,     0,     0,   124,     0,   125,   126,   127,   128,
+     129,   308,   211,     0,     0,   130,     0,   131,   132,   133,
+     309,   134,     0,     0,     0,   135,   136,   137,   138,   139,
+     310,     0,   473,     0,     0,     0,   312,     0,   142,   291,
+     292,   293,   294,     0,   295,     0,   296,     0,     0,     0,
+       0,     0,     0,     0,     0,   297,     0,    97,     0,   313,
+     230,     0,     0,     0,     0,    98,   298,    99,     0,   299,
+       0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
+       0,     0,     0,   106,   107,     0,     0,   108,   109,     0,
+       0,     0,   110,     0,     0,     0,     0,   111,   303,   304,
+     112,   113,   114,   115,     0,     0,     0,     0,   305,   116,
+       0,   117,     0,   118,     0,   306,     0,     0,   119,   120,
+     121,   122,     0,   123,     0,   307,     0,     0,     0,   124,
+       0,   125,   126,   127,   128,   129,   308,   211,     0,     0,
+     130,     0,   131,   132,   133,   309,   134,     0,     0,     0,
+     135,   136,   137,   138,   139,   310,     0,     0,     0,     0,
+       0,   312,     0,   142,     0,     0,     0,     0,     0,     0,
+     291,   292,   404,   405,     0,   406,     0,   407,     0,     0,
+       0,     0,     0,     0,   313,   230,   297,     0,    97,     0,
+     408,   409,     0,     0,     0,     0,    98,     0,    99,     0,
+     826,     0,     0,   101,   102,   103,   411,   104,   105,     0,
+       0,     0,     0,   412,   106,   107,     0,     0,   108,   109,
+       0,     0,     0,   110,     0,     0,     0,     0,   111,   303,
+       0,   112,   113,   114,   115,     0,     0,     0,     0,     0,
+     116,     0,   827,     0,   118,     0,     0,     0,     0,   119,
+     120,   121,   122,     0,   123,   414,     0,     0,     0,     0,
+     124,     0,   125,   126,   127,   128,   129,     0,     0,     0,
+       0,   130,     0,   131,   132,   133,   309,   134,     0,     0,
+       0,   135,   136,   137,   138,   139,   415,     0,     0,     0,
+     416,     0,     0,     0,   142,   291,   292,   293,   294,    23,
+     295,     0,   296,     0,     0,     0,     0,   417,     0,     0,
+       0,   297,     0,    97,     0,   418,   807,     0,     0,     0,
+       0,    98,     0,    99,     0,   299,     0,     0,   101,   102,
+     103,     0,   104,   105,     0,     0,     0,     0,     0,   106,
+     107,     0,     0,   108,   109,     0,     0,     0,   110,     0,
+       0,     0,     0,   111,   303,   304,   112,   113,   114,   115,
+       0,     0,     0,     0,   305,   116,     0,   117,     0,   118,
+       0,   306,     0,     0,   119,   120,   121,   122,     0,   123,
+       0,   307,     0,     0,     0,   124,     0,   125,   126,   127,
+     128,   129,   308,   211,     0,     0,   130,     0,   131,   132,
+     133,   309,   134,     0,     0,     0,   135,   136,   137,   138,
+     139,   310,     0,     0,     0,     0,     0,   312,     0,   142,
+     291,   292,   380,   381,     0,   382,     0,   383,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,    97,     0,
+     313,   230,     0,     0,     0,     0,    98,     0,    99,     0,
+     100,     0,     0,   101,   102,   103,     0,   104,   105,     0,
+       0,     0,     0,     0,   106,   107,     0,     0,   108,   109,
+       0,     0,     0,   110,     0,     0,     0,     0,   111,   303,
+       0,   112,   113,   114,   115,     0,     0,     0,     0,     0,
+     116,     0,   117,     0,   118,     0,     0,     0,     0,   119,
+     120,   121,   122,     0,   123,     0,     0,     0,     0,     0,
+     124,     0,   125,   126,   127,   128,   129,     0,     0,   291,
+     292,   130,     0,   131,   132,   133,   309,   134,     0,     0,
+       0,   135,   136,   137,   138,   139,     0,    97,     0,     0,
+     384,     0,     0,     0,   142,    98,     0,    99,     0,   100,
+       0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
+       0,     0,     0,   106,   107,   221,   230,   108,   109,     0,
+       0,     0,   110,     0,     0,     0,     0,   111,     0,     0,
+     112,   113,   114,   115,     0,     0,     0,     0,     0,   116,
+       0,   117,     0,   118,     0,     0,     0,     0,   119,   120,
+     121,   122,     0,   123,     0,     0,     0,     0,     0,   124,
+       0,   125,   126,   127,   128,   129,     0,     0,     0,     0,
+     130,     0,   131,   132,   133,     0,   134,     0,     0,     0,
+     135,   136,   137,   138,   139,     0,     0,   291,   292,   404,
+     405,     0,   406,   142,   407,     0,     0,     0,     0,     0,
+       0,     0,     0,   297,     0,    97,     0,   408,   409,     0,
+       0,     0,     0,    98,   143,   230,     0,   410,     0,   291,
+     292,   404,   405,   411,   406,     0,   407,     0,     0,     0,
+     412,     0,     0,     0,     0,   297,     0,     0,     0,   408,
+     409,     0,     0,     0,     0,    98,   303,     0,     0,   410,
+       0,     0,     0,     0,     0,   411,     0,     0,     0,   413,
+       0,     0,   412,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   414,     0,     0,     0,     0,     0,   303,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,   291,
-     292,   380,   381,     0,   382,     0,   383,     0,     0,     0,
-       0,     0,     0,     0,     0,   297,     0,    97,   397,   384,
-     385,   397,     0,     0,   725,   726,   727,    99,   728,   729,
-     730,   731,   732,   733,   734,   735,   736,   737,   738,   739,
-     740,   741,   742,   743,   744,   745,   746,   747,   748,   749,
-     750,   751,   752,   753,   754,   755,   756,   757,   758,   759,
-     112,   113,   114,   115,   760,   761,   762,   763,   764,   765,
-     766,   767,   768,   118,   769,   770,   771,   772,   119,   773,
-     121,   774,   775,   776,   777,   778,   779,   780,   781,   124,
-     782,   783,   784,   785,   786,   787,   788,   789,   790,   791,
-     130,   792,   131,   793,   794,   795,   796,   797,   798,   799,
-     135,   136,   137,   138,   139,   800,     0,     0,     0,   392,
-     822,     0,     0,   142,     0,     0,     0,     0,    23,     0,
-       0,     0,   801,     0,     0,     0,   393,     0,     0,     0,
-       0,     0,     0,     0,   802,   395,   291,   292,   380,   381,
-       0,   382,     0,   383,     0,     0,     0,     0,     0,     0,
-       0,     0,   297,     0,    97,     0,   723,   724,     0,     0,
-       0,   725,   726,   727,    99,   728,   729,   730,   731,   732,
-     733,   734,   735,   736,   737,   738,   739,   740,   741,   742,
-     743,   744,   745,   746,   747,   748,   749,   750,   751,   752,
-     753,   754,   755,   756,   757,   758,   759,   112,   113,   114,
-     115,   760,   761,   762,   763,   764,   765,   766,   767,   768,
-     118,   769,   770,   771,   772,   119,   773,   121,   774,   775,
-     776,   777,   778,   779,   780,   781,   124,   782,   783,   784,
-     785,   786,   787,   788,   789,   790,   791,   130,   792,   131,
-     793,   794,   795,   796,   797,   798,   799,   135,   136,   137,
-     138,   139,   800,     0,     0,     0,   392,     0,     0,     0,
-     142,   291,   292,   293,   294,    23,   295,     0,   296,   801,
-       0,     0,     0,   393,     0,     0,     0,   297,     0,    97,
-       0,   802,   395,     0,     0,     0,     0,    98,   298,    99,
-       0,   299,     0,     0,   101,   102,   103,     0,   104,   105,
-       0,     0,     0,   300,   301,   106,   107,     0,     0,   108,
-     109,   302,     0,     0,   110,     0,     0,     0,     0,   111,
-     303,   304,   112,   113,   114,   115,     0,     0,     0,     0,
-     305,   116,     0,   117,     0,   118,     0,   306,     0,     0,
-     119,   120,   121,   122,     0,   123,     0,   307,     0,     0,
-       0,   124,     0,   125,   126,   127,   128,   129,   308,   211,
-       0,     0,   130,     0,   131,   132,   133,   309,   134,     0,
-       0,     0,   135,   136,   137,   138,   139,   310,     0,     0,
-       0,   311,     0,   312,     0,   142,   291,   292,   293,   294,
-       0,   295,     0,   296,     0,     0,     0,     0,     0,     0,
-       0,     0,   297,     0,    97,     0,   313,   230,     0,     0,
-       0,     0,    98,   298,    99,     0,   299,     0,     0,   101,
-     102,   103,     0,   104,   105,     0,     0,     0,     0,     0,
-     106,   107,     0,     0,   108,   109,     0,     0,     0,   110,
-       0,     0,     0,     0,   111,   303,   304,   112,   113,   114,
-     115,     0,     0,     0,     0,   305,   116,     0,   117,     0,
-     118,     0,   306,     0,     0,   119,   120,   121,   122,     0,
-     123,     0,   307,     0,     0,     0,   124,     0,   125,   126,
-     127,   128,   129,   308,   211,     0,     0,   130,     0,   131,
-     132,   133,   309,   134,     0,     0,     0,   135,   136,   137,
-     138,   139,   310,     0,   471,     0,     0,     0,   312,     0,
-     142,     0,     0,     0,     0,     0,     0,   291,   292,   380,
-     381,     0,   382,     0,   383,     0,     0,     0,     0,     0,
-       0,   313,   230,   297,     0,    97,     0,   384,   385,     0,
-       0,     0,     0,    98,     0,    99,     0,   386,     0,     0,
-     101,   102,   103,   387,   104,   105,     0,     0,     0,     0,
-     388,   106,   107,     0,     0,   108,   109,     0,     0,     0,
-     110,     0,     0,     0,     0,   111,   303,     0,   112,   113,
-     114,   115,     0,     0,     0,     0,     0,   116,     0,   389,
-       0,   118,     0,     0,     0,     0,   119,   120,   121,   122,
-       0,   123,   390,     0,     0,     0,     0,   124,     0,   125,
-     126,   127,   128,   129,     0,     0,     0,     0,   130,     0,
-     131,   132,   133,   309,   134,     0,     0,     0,   135,   136,
-     137,   138,   139,   391,     0,     0,     0,   392,     0,     0,
-       0,   142,   291,   292,   293,   294,    23,   295,     0,   296,
-       0,     0,     0,     0,   393,     0,     0,     0,   297,     0,
-      97,     0,   394,   395,     0,     0,     0,     0,    98,   298,
-      99,     0,   299,     0,     0,   101,   102,   103,     0,   104,
-     105,     0,     0,     0,     0,     0,   106,   107,     0,     0,
-     108,   109,     0,     0,     0,   110,     0,     0,     0,     0,
-     111,   303,   304,   112,   113,   114,   115,     0,     0,     0,
-       0,   305,   116,     0,   117,     0,   118,     0,   306,     0,
-       0,   119,   120,   121,   122,     0,   123,     0,   307,     0,
-       0,     0,   124,     0,   125,   126,   127,   128,   129,   308,
-     211,     0,     0,   130,     0,   131,   132,   133,   309,   134,
-       0,     0,     0,   135,   136,   137,   138,   139,   310,     0,
-       0,     0,     0,     0,   312,     0,   142,     0,     0,     0,
-       0,     0,     0,   291,   292,   380,   381,     0,   382,     0,
-     383,     0,     0,     0,     0,     0,     0,   313,   230,   297,
-       0,    97,     0,   384,   385,     0,     0,     0,     0,    98,
-       0,    99,     0,   386,     0,     0,   101,   102,   103,   387,
-     104,   105,     0,     0,     0,     0,   388,   106,   107,     0,
-       0,   108,   109,     0,     0,     0,   110,     0,     0,     0,
-       0,   111,   303,     0,   112,   113,   114,   115,     0,     0,
-       0,     0,     0,   116,     0,   389,     0,   118,     0,     0,
-       0,     0,   119,   120,   121,   122,     0,   123,   390,     0,
-       0,     0,     0,   124,     0,   125,   126,   127,   128,   129,
-       0,     0,     0,     0,   130,     0,   131,   132,   133,   309,
-     134,     0,     0,     0,   135,   136,   137,   138,   139,   391,
-       0,     0,     0,   392,     0,     0,     0,   142,   291,   292,
-     293,   294,    23,   295,     0,   296,     0,     0,     0,     0,
-     393,     0,     0,     0,   297,     0,    97,     0,   424,   395,
-       0,     0,     0,     0,    98,     0,    99,     0,   299,     0,
-       0,   101,   102,   103,     0,   104,   105,     0,     0,     0,
-       0,     0,   106,   107,     0,     0,   108,   109,     0,     0,
-       0,   110,     0,     0,     0,     0,   111,   303,   304,   112,
-     113,   114,   115,     0,     0,     0,     0,   305,   116,     0,
-     117,     0,   118,     0,   306,     0,     0,   119,   120,   121,
-     122,     0,   123,     0,   307,     0,     0,     0,   124,     0,
-     125,   126,   127,   128,   129,   308,   211,   291,   292,   130,
-       0,   131,   132,   133,   309,   134,     0,     0,     0,   135,
-     136,   137,   138,   139,   310,    97,     0,     0,     0,     0,
-     312,     0,   142,    98,     0,    99,     0,   100,     0,     0,
-     101,   102,   103,     0,   104,   105,     0,     0,     0,     0,
-       0,   106,   107,   313,   230,   108,   109,     0,     0,     0,
-     110,     0,     0,     0,     0,   111,     0,     0,   112,   113,
-     114,   115,     0,     0,     0,     0,     0,   116,     0,   117,
-       0,   118,     0,     0,     0,     0,   119,   120,   121,   122,
-       0,   123,     0,     0,     0,     0,     0,   124,     0,   125,
-     126,   127,   128,   129,     0,     0,     0,     0,   130,     0,
-     131,   132,   133,     0,   134,     0,     0,     0,   135,   136,
-     137,   138,   139,     0,     0,   291,   292,   380,   381,     0,
-     382,   142,   383,     0,     0,     0,     0,     0,     0,     0,
-       0,   297,     0,    97,     0,   384,   385,     0,     0,     0,
-       0,    98,   143,   230,     0,   422,     0,   291,   292,   380,
-     381,   387,   382,     0,   383,     0,     0,     0,   388,     0,
-       0,     0,     0,   297,     0,     0,     0,   384,   385,     0,
-       0,     0,     0,    98,   303,     0,     0,   422,     0,     0,
-       0,     0,     0,   387,     0,     0,     0,   423,     0,     0,
-     388,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-     390,     0,     0,     0,     0,     0,   303,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,   423,
-       0,   309,   134,     0,     0,     0,     0,     0,     0,     0,
-       0,   391,   390,     0,     0,   709,     0,     0,     0,     0,
-       0,     0,     0,     0,    23,     0,     0,     0,     0,     0,
-       0,     0,   393,   309,   134,     0,     0,     0,     0,     0,
-     424,   425,     0,   391,     0,     0,     0,   392,     0,     0,
-       0,    97,     0,     0,     0,     0,    23,     0,     0,    98,
-       0,    99,     0,   100,   393,     0,   101,   102,   103,     0,
-     104,   105,   424,   425,   283,     0,     0,   106,   107,     0,
-       0,   108,   109,     0,     0,     0,   110,     0,     0,     0,
+       0,   413,     0,   309,   134,     0,     0,     0,     0,     0,
+       0,     0,     0,   415,   414,     0,     0,   713,     0,     0,
+       0,     0,     0,     0,     0,     0,    23,     0,     0,     0,
+       0,     0,     0,     0,   417,   309,   134,     0,     0,     0,
+       0,     0,   418,   419,     0,   415,     0,     0,     0,   416,
+       0,     0,     0,    97,     0,     0,     0,     0,    23,     0,
+       0,    98,     0,    99,     0,   100,   417,     0,   101,   102,
+     103,     0,   104,   105,   418,   419,   283,     0,     0,   106,
+     107,     0,     0,   108,   109,     0,     0,     0,   110,     0,
+       0,     0,     0,   111,     0,     0,   112,   113,   114,   115,
+       0,     0,     0,     0,     0,   116,     0,   117,     0,   118,
+       0,     0,     0,     0,   119,   120,   121,   122,     0,   123,
+       0,     0,     0,     0,     0,   124,     0,   125,   126,   127,
+     128,   129,     0,     0,     0,     0,   130,     0,   131,   132,
+     133,     0,   134,     0,     0,     0,   135,   136,   137,   138,
+     139,     0,    97,   284,     0,     0,   285,     0,     0,   142,
+      98,     0,    99,     0,   100,     0,     0,   101,   102,   103,
+       0,   104,   105,     0,     0,   283,     0,     0,   106,   107,
+     143,    16,   108,   109,     0,     0,     0,   110,     0,     0,
+       0,     0,   111,     0,     0,   112,   113,   114,   115,     0,
+       0,     0,     0,     0,   116,     0,   117,     0,   118,     0,
+       0,     0,     0,   119,   120,   121,   122,     0,   123,     0,
+       0,     0,     0,     0,   124,     0,   125,   126,   127,   128,
+     129,     0,     0,     0,     0,   130,     0,   131,   132,   133,
+       0,   134,     0,     0,     0,   135,   136,   137,   138,   139,
+       0,    97,   284,     0,     0,   357,     0,     0,   142,    98,
+       0,    99,     0,   100,     0,     0,   101,   102,   103,     0,
+     104,   105,     0,     0,     0,     0,     0,   106,   107,   143,
+      16,   108,   109,     0,     0,     0,   110,     0,     0,     0,
        0,   111,     0,     0,   112,   113,   114,   115,     0,     0,
        0,     0,     0,   116,     0,   117,     0,   118,     0,     0,
        0,     0,   119,   120,   121,   122,     0,   123,     0,     0,
        0,     0,     0,   124,     0,   125,   126,   127,   128,   129,
        0,     0,     0,     0,   130,     0,   131,   132,   133,     0,
      134,     0,     0,     0,   135,   136,   137,   138,   139,     0,
-      97,   284,     0,     0,   285,     0,     0,   142,    98,     0,
-      99,     0,   100,     0,     0,   101,   102,   103,     0,   104,
-     105,     0,     0,   283,     0,     0,   106,   107,   143,    16,
-     108,   109,     0,     0,     0,   110,     0,     0,     0,     0,
-     111,     0,     0,   112,   113,   114,   115,     0,     0,     0,
-       0,     0,   116,     0,   117,     0,   118,     0,     0,     0,
-       0,   119,   120,   121,   122,     0,   123,     0,     0,     0,
-       0,     0,   124,     0,   125,   126,   127,   128,   129,     0,
-       0,     0,     0,   130,     0,   131,   132,   133,     0,   134,
-       0,     0,     0,   135,   136,   137,   138,   139,     0,    97,
-     284,     0,     0,   357,     0,     0,   142,    98,     0,    99,
-       0,   100,     0,     0,   101,   102,   103,     0,   104,   105,
-       0,     0,     0,     0,     0,   106,   107,   143,    16,   108,
-     109,     0,     0,     0,   110,     0,     0,     0,     0,   111,
-       0,     0,   112,   113,   114,   115,     0,     0,     0,     0,
-       0,   116,     0,   117,     0,   118,     0,     0,     0,     0,
-     119,   120,   121,   122,     0,   123,     0,     0,     0,     0,
-       0,   124,     0,   125,   126,   127,   128,   129,     0,     0,
-       0,     0,   130,     0,   131,   132,   133,     0,   134,     0,
-       0,     0,   135,   136,   137,   138,   139,     0,   140,     0,
-       0,   141,    97,     0,     0,   142,     0,     0,     0,     0,
+     140,     0,     0,   141,    97,     0,     0,   142,     0,     0,
+       0,     0,    98,     0,    99,     0,   100,     0,     0,   101,
+     102,   103,     0,   104,   105,     0,     0,     0,   143,    16,
+     106,   107,     0,     0,   108,   109,     0,     0,     0,   110,
+       0,   249,     0,     0,   111,     0,     0,   112,   113,   114,
+     115,     0,   250,     0,     0,     0,   116,     0,   117,     0,
+     118,     0,     0,     0,     0,   119,   120,   121,   122,     0,
+     123,     0,     0,     0,     0,     0,   124,     0,   125,   126,
+     127,   128,   129,     0,     0,     0,     0,   130,     0,   131,
+     132,   133,     0,   134,     0,     0,     0,   135,   136,   137,
+     138,   139,     0,    97,     0,     0,     0,     0,     0,     0,
+     142,    98,     0,    99,     0,   100,     0,     0,   101,   102,
+     103,     0,   104,   105,     0,     0,   283,     0,     0,   106,
+     107,   143,    16,   108,   109,     0,     0,     0,   110,     0,
+       0,     0,     0,   111,     0,     0,   112,   113,   114,   115,
+       0,     0,     0,     0,     0,   116,     0,   117,     0,   118,
+       0,     0,     0,     0,   119,   120,   121,   122,     0,   123,
+       0,     0,     0,     0,     0,   124,     0,   125,   126,   127,
+     128,   129,     0,     0,     0,     0,   130,     0,   131,   132,
+     133,     0,   134,     0,     0,     0,   135,   136,   137,   138,
+     139,     0,    97,   565,   371,   372,     0,     0,     0,   142,
       98,     0,    99,     0,   100,     0,     0,   101,   102,   103,
-       0,   104,   105,     0,     0,     0,   143,    16,   106,   107,
-       0,     0,   108,   109,     0,     0,     0,   110,     0,   249,
+       0,   104,   105,     0,     0,     0,     0,     0,   106,   107,
+     143,    16,   108,   109,     0,     0,     0,   110,     0,     0,
        0,     0,   111,     0,     0,   112,   113,   114,   115,     0,
-     250,     0,     0,     0,   116,     0,   117,     0,   118,     0,
+       0,     0,     0,     0,   116,     0,   117,     0,   118,     0,
        0,     0,     0,   119,   120,   121,   122,     0,   123,     0,
        0,     0,     0,     0,   124,     0,   125,   126,   127,   128,
      129,     0,     0,     0,     0,   130,     0,   131,   132,   133,
@@ -10818,9 +10846,9 @@ namespace yy {
        0,     0,     0,   124,     0,   125,   126,   127,   128,   129,
        0,     0,     0,     0,   130,     0,   131,   132,   133,     0,
      134,     0,     0,     0,   135,   136,   137,   138,   139,     0,
-      97,   562,   371,   372,     0,     0,     0,   142,    98,     0,
+      97,   629,     0,     0,     0,     0,     0,   142,    98,     0,
       99,     0,   100,     0,     0,   101,   102,   103,     0,   104,
-     105,     0,     0,     0,     0,     0,   106,   107,   143,    16,
+     105,     0,     0,   283,     0,     0,   106,   107,   143,    16,
      108,   109,     0,     0,     0,   110,     0,     0,     0,     0,
      111,     0,     0,   112,   113,   114,   115,     0,     0,     0,
        0,     0,   116,     0,   117,     0,   118,     0,     0,     0,
@@ -10828,7 +10856,7 @@ namespace yy {
        0,     0,   124,     0,   125,   126,   127,   128,   129,     0,
        0,     0,     0,   130,     0,   131,   132,   133,     0,   134,
        0,     0,     0,   135,   136,   137,   138,   139,     0,    97,
-       0,     0,     0,     0,     0,     0,   142,    98,     0,    99,
+     711,     0,     0,     0,     0,     0,   142,    98,     0,    99,
        0,   100,     0,     0,   101,   102,   103,     0,   104,   105,
        0,     0,   283,     0,     0,   106,   107,   143,    16,   108,
      109,     0,     0,     0,   110,     0,     0,     0,     0,   111,
@@ -10837,60 +10865,60 @@ namespace yy {
      119,   120,   121,   122,     0,   123,     0,     0,     0,     0,
        0,   124,     0,   125,   126,   127,   128,   129,     0,     0,
        0,     0,   130,     0,   131,   132,   133,     0,   134,     0,
-       0,     0,   135,   136,   137,   138,   139,     0,    97,   625,
+       0,     0,   135,   136,   137,   138,   139,     0,    97,   872,
        0,     0,     0,     0,     0,   142,    98,     0,    99,     0,
      100,     0,     0,   101,   102,   103,     0,   104,   105,     0,
-       0,   283,     0,     0,   106,   107,   143,    16,   108,   109,
+       0,     0,     0,     0,   106,   107,   143,    16,   108,   109,
        0,     0,     0,   110,     0,     0,     0,     0,   111,     0,
        0,   112,   113,   114,   115,     0,     0,     0,     0,     0,
      116,     0,   117,     0,   118,     0,     0,     0,     0,   119,
      120,   121,   122,     0,   123,     0,     0,     0,     0,     0,
      124,     0,   125,   126,   127,   128,   129,     0,     0,     0,
        0,   130,     0,   131,   132,   133,     0,   134,     0,     0,
-       0,   135,   136,   137,   138,   139,     0,    97,   707,     0,
-       0,     0,     0,     0,   142,    98,     0,    99,     0,   100,
-       0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
-     283,     0,     0,   106,   107,   143,    16,   108,   109,     0,
+       0,   135,   136,   137,   138,   139,     0,    97,     0,     0,
+     141,     0,     0,     0,   142,    98,     0,    99,     0,   100,
+       0,     0,   101,   102,   103,     0,   104,   105,   220,     0,
+       0,     0,     0,   106,   107,   143,    16,   108,   109,     0,
        0,     0,   110,     0,     0,     0,     0,   111,     0,     0,
      112,   113,   114,   115,     0,     0,     0,     0,     0,   116,
        0,   117,     0,   118,     0,     0,     0,     0,   119,   120,
      121,   122,     0,   123,     0,     0,     0,     0,     0,   124,
        0,   125,   126,   127,   128,   129,     0,     0,     0,     0,
      130,     0,   131,   132,   133,     0,   134,     0,     0,     0,
-     135,   136,   137,   138,   139,     0,    97,   864,     0,     0,
+     135,   136,   137,   138,   139,     0,    97,     0,     0,     0,
        0,     0,     0,   142,    98,     0,    99,     0,   100,     0,
        0,   101,   102,   103,     0,   104,   105,     0,     0,     0,
-       0,     0,   106,   107,   143,    16,   108,   109,     0,     0,
+       0,     0,   106,   107,   221,    16,   108,   109,     0,     0,
        0,   110,     0,     0,     0,     0,   111,     0,     0,   112,
      113,   114,   115,     0,     0,     0,     0,     0,   116,     0,
      117,     0,   118,     0,     0,     0,     0,   119,   120,   121,
      122,     0,   123,     0,     0,     0,     0,     0,   124,     0,
      125,   126,   127,   128,   129,     0,     0,     0,     0,   130,
        0,   131,   132,   133,     0,   134,     0,     0,     0,   135,
-     136,   137,   138,   139,     0,    97,     0,     0,   141,     0,
-       0,     0,   142,    98,     0,    99,     0,   100,     0,     0,
-     101,   102,   103,     0,   104,   105,   220,     0,     0,     0,
-       0,   106,   107,   143,    16,   108,   109,     0,     0,     0,
-     110,     0,     0,     0,     0,   111,     0,     0,   112,   113,
-     114,   115,     0,     0,     0,     0,     0,   116,     0,   117,
-       0,   118,     0,     0,     0,     0,   119,   120,   121,   122,
-       0,   123,     0,     0,     0,     0,     0,   124,     0,   125,
-     126,   127,   128,   129,     0,     0,     0,     0,   130,     0,
-     131,   132,   133,     0,   134,     0,     0,     0,   135,   136,
-     137,   138,   139,     0,    97,     0,     0,     0,     0,     0,
-       0,   142,    98,     0,    99,     0,   100,     0,     0,   101,
-     102,   103,     0,   104,   105,     0,     0,     0,     0,     0,
-     106,   107,   221,    16,   108,   109,     0,     0,     0,   110,
-       0,     0,     0,     0,   111,     0,     0,   112,   113,   114,
-     115,     0,     0,     0,     0,     0,   116,     0,   117,     0,
-     118,     0,     0,     0,     0,   119,   120,   121,   122,     0,
-     123,     0,     0,     0,     0,     0,   124,     0,   125,   126,
-     127,   128,   129,     0,     0,     0,     0,   130,     0,   131,
-     132,   133,     0,   134,     0,     0,     0,   135,   136,   137,
-     138,   139,     0,   243,     0,     0,     0,    97,     0,     0,
-     142,     0,     0,     0,     0,    98,     0,    99,     0,   100,
+     136,   137,   138,   139,     0,   243,     0,     0,     0,    97,
+       0,     0,   142,     0,     0,     0,     0,    98,     0,    99,
+       0,   100,     0,     0,   101,   102,   103,     0,   104,   105,
+       0,     0,     0,   143,    16,   106,   107,     0,     0,   108,
+     109,     0,     0,     0,   110,     0,     0,     0,     0,   111,
+       0,     0,   112,   113,   114,   115,     0,     0,     0,     0,
+       0,   116,     0,   117,     0,   118,     0,     0,     0,     0,
+     119,   120,   121,   122,     0,   123,     0,     0,     0,     0,
+       0,   124,     0,   125,   126,   127,   128,   129,     0,     0,
+       0,     0,   130,     0,   131,   132,   133,     0,   134,     0,
+       0,     0,   135,   136,   137,   138,   139,     0,    97,     0,
+       0,     0,     0,     0,     0,   142,    98,   253,    99,     0,
+     100,     0,     0,   101,   102,   103,     0,   104,   105,     0,
+       0,     0,     0,     0,   106,   107,   143,    16,   108,   109,
+       0,     0,     0,   110,     0,     0,     0,     0,   111,     0,
+       0,   112,   113,   114,   115,     0,     0,     0,     0,     0,
+     116,     0,   117,     0,   118,     0,     0,     0,     0,   119,
+     120,   121,   122,     0,   123,     0,     0,     0,     0,     0,
+     124,     0,   125,   126,   127,   128,   129,     0,     0,     0,
+       0,   130,     0,   131,   132,   133,     0,   134,     0,     0,
+       0,   135,   136,   137,   138,   139,     0,    97,   632,     0,
+       0,     0,     0,     0,   142,    98,     0,    99,     0,   100,
        0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
-       0,   143,    16,   106,   107,     0,     0,   108,   109,     0,
+     283,     0,     0,   106,   107,   221,    16,   108,   109,     0,
        0,     0,   110,     0,     0,     0,     0,   111,     0,     0,
      112,   113,   114,   115,     0,     0,     0,     0,     0,   116,
        0,   117,     0,   118,     0,     0,     0,     0,   119,   120,
@@ -10898,7 +10926,7 @@ namespace yy {
        0,   125,   126,   127,   128,   129,     0,     0,     0,     0,
      130,     0,   131,   132,   133,     0,   134,     0,     0,     0,
      135,   136,   137,   138,   139,     0,    97,     0,     0,     0,
-       0,     0,     0,   142,    98,   253,    99,     0,   100,     0,
+       0,     0,     0,   142,    98,     0,    99,     0,   100,     0,
        0,   101,   102,   103,     0,   104,   105,     0,     0,     0,
        0,     0,   106,   107,   143,    16,   108,   109,     0,     0,
        0,   110,     0,     0,     0,     0,   111,     0,     0,   112,
@@ -10907,10 +10935,10 @@ namespace yy {
      122,     0,   123,     0,     0,     0,     0,     0,   124,     0,
      125,   126,   127,   128,   129,     0,     0,     0,     0,   130,
        0,   131,   132,   133,     0,   134,     0,     0,     0,   135,
-     136,   137,   138,   139,     0,    97,   628,     0,     0,     0,
+     136,   137,   138,   139,     0,    97,     0,     0,     0,     0,
        0,     0,   142,    98,     0,    99,     0,   100,     0,     0,
-     101,   102,   103,     0,   104,   105,     0,     0,   283,     0,
-       0,   106,   107,   221,    16,   108,   109,     0,     0,     0,
+     101,   102,   103,     0,   104,   105,     0,     0,     0,     0,
+       0,   106,   107,   221,   230,   108,   109,     0,     0,     0,
      110,     0,     0,     0,     0,   111,     0,     0,   112,   113,
      114,   115,     0,     0,     0,     0,     0,   116,     0,   117,
        0,   118,     0,     0,     0,     0,   119,   120,   121,   122,
@@ -10927,393 +10955,389 @@ namespace yy {
      123,     0,     0,     0,     0,     0,   124,     0,   125,   126,
      127,   128,   129,     0,     0,     0,     0,   130,     0,   131,
      132,   133,     0,   134,     0,     0,     0,   135,   136,   137,
-     138,   139,     0,    97,     0,     0,     0,     0,     0,     0,
-     142,    98,     0,    99,     0,   100,     0,     0,   101,   102,
-     103,     0,   104,   105,     0,     0,     0,     0,     0,   106,
-     107,   221,   230,   108,   109,     0,     0,     0,   110,     0,
-       0,     0,     0,   111,     0,     0,   112,   113,   114,   115,
-       0,     0,     0,     0,     0,   116,     0,   117,     0,   118,
-       0,     0,     0,     0,   119,   120,   121,   122,     0,   123,
-       0,     0,     0,     0,     0,   124,     0,   125,   126,   127,
-     128,   129,     0,     0,     0,     0,   130,     0,   131,   132,
-     133,     0,   134,     0,     0,     0,   135,   136,   137,   138,
-     139,     0,    97,     0,     0,     0,     0,     0,     0,   142,
-      98,     0,    99,     0,   100,     0,     0,   101,   102,   103,
-       0,   104,   105,     0,     0,     0,     0,     0,   106,   107,
-     143,    16,   108,   109,     0,     0,     0,   110,     0,     0,
-       0,     0,   111,     0,     0,   112,   113,   114,   115,     0,
-       0,     0,     0,     0,   116,     0,   117,     0,   118,     0,
-       0,     0,     0,   119,   120,   121,   122,     0,   123,     0,
-       0,     0,     0,     0,   124,     0,   125,   126,   127,   128,
-     129,     0,     0,     0,     0,   130,     0,   131,   132,   133,
-       0,   134,     0,     0,     0,   135,   136,   137,   138,   139,
-       0,     0,     0,     0,     0,     0,     0,     0,   142,     0,
+     138,   139,     0,     0,     0,     0,     0,     0,     0,     0,
+     142,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   371,   372,
+       0,   221,    16,   729,   832,   731,     0,   732,   833,   734,
+     735,   834,   835,   836,   837,   838,   839,   742,   743,   744,
+     745,   840,   841,   842,   749,   750,   843,   844,   753,   754,
+     755,   845,   757,   758,   759,   760,   846,   847,   763,     0,
+       0,     0,     0,   764,   765,   766,   767,   768,   848,   770,
+     849,   772,     0,   773,   774,   775,   776,     0,   850,     0,
+     851,   779,   852,   853,   782,   783,   784,   785,     0,   786,
+     854,   855,   856,   857,   858,   792,   793,   794,   795,     0,
+     796,     0,   859,   860,   861,   862,   801,   802,   803,     0,
+       0,     0,     0,     0,   863,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,   371,   372,     0,   221,
-      16,   725,   824,   727,     0,   728,   825,   730,   731,   826,
-     827,   828,   829,   830,   831,   738,   739,   740,   741,   832,
-     833,   834,   745,   746,   835,   836,   749,   750,   751,   837,
-     753,   754,   755,   756,   838,   839,   759,     0,     0,     0,
-       0,   760,   761,   762,   763,   764,   840,   766,   841,   768,
-       0,   769,   770,   771,   772,     0,   842,     0,   843,   775,
-     844,   845,   778,   779,   780,   781,     0,   782,   846,   847,
-     848,   849,   850,   788,   789,   790,   791,     0,   792,     0,
-     851,   852,   853,   854,   797,   798,   799,     0,     0,     0,
-       0,     0,   855,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,   801,
-       0,     0,     0,     0,     0,     0,     0,     0,   725,   824,
-     727,   857,   728,   825,   730,   731,   826,   827,   828,   829,
-     830,   831,   738,   739,   740,   741,   832,   833,   834,   745,
-     746,   835,   836,   749,   750,   751,   837,   753,   754,   755,
-     756,   838,   839,   759,     0,     0,     0,     0,   760,   761,
-     762,   763,   764,   840,   766,   841,   768,     0,   769,   770,
-     771,   772,     0,   842,     0,   843,   775,   844,   845,   778,
-     779,   780,   781,     0,   782,   846,   847,   848,   849,   850,
-     788,   789,   790,   791,     0,   792,     0,   851,   852,   853,
-     854,   797,   798,   799,     0,     0,     0,     0,     0,   855,
-       0,     0,     0,     0,   867,     0,     0,   856,     0,     0,
-       0,     0,     0,     0,     0,     0,   801,     0,     0,     0,
-       0,     0,     0,     0,     0,   725,   824,   727,   857,   728,
-     825,   730,   731,   826,   827,   828,   829,   830,   831,   738,
-     739,   740,   741,   832,   833,   834,   745,   746,   835,   836,
-     749,   750,   751,   837,   753,   754,   755,   756,   838,   839,
-     759,     0,     0,     0,     0,   760,   761,   762,   763,   764,
-     840,   766,   841,   768,     0,   769,   770,   771,   772,     0,
-     842,     0,   843,   775,   844,   845,   778,   779,   780,   781,
-       0,   782,   846,   847,   848,   849,   850,   788,   789,   790,
-     791,     0,   792,     0,   851,   852,   853,   854,   797,   798,
-     799,     0,     0,     0,     0,     0,   855,     0,     0,     0,
-       0,     0,     0,     0,   856,   873,     0,     0,     0,     0,
-       0,     0,     0,   801,     0,     0,     0,     0,     0,     0,
-       0,     0,   725,   824,   727,   857,   728,   825,   730,   731,
-     826,   827,   828,   829,   830,   831,   738,   739,   740,   741,
-     832,   833,   834,   745,   746,   835,   836,   749,   750,   751,
-     837,   753,   754,   755,   756,   838,   839,   759,     0,     0,
-       0,     0,   760,   761,   762,   763,   764,   840,   766,   841,
-     768,     0,   769,   770,   771,   772,     0,   842,     0,   843,
-     775,   844,   845,   778,   779,   780,   781,     0,   782,   846,
-     847,   848,   849,   850,   788,   789,   790,   791,     0,   792,
-       0,   851,   852,   853,   854,   797,   798,   799,     0,     0,
-       0,     0,     0,   855,     0,     0,     0,     0,  -266,     0,
-    -266,   856,  -266,     0,  -266,  -266,     0,     0,     0,     0,
-     801,     0,  -266,  -266,  -266,  -266,     0,     0,     0,  -266,
-    -266,     0,   857,  -266,  -266,  -266,     0,  -266,  -266,  -266,
-    -266,     0,     0,  -266,     0,     0,     0,     0,  -266,  -266,
-    -266,  -266,  -266,     0,  -266,     0,  -266,     0,  -266,  -266,
-    -266,  -266,     0,     0,     0,     0,  -266,     0,     0,  -266,
-    -266,  -266,  -266,     0,  -266,     0,     0,     0,     0,     0,
-    -266,  -266,  -266,  -266,     0,  -266,     0,     0,     0,     0,
-       0,  -266,  -266,  -266,     0,     0,  -267,     0,  -267,     0,
-    -267,     0,  -267,  -267,  -266,     0,     0,     0,     0,     0,
-    -267,  -267,  -267,  -267,     0,     0,  -266,  -267,  -267,     0,
-       0,  -267,  -267,  -267,  -266,  -267,  -267,  -267,  -267,     0,
-       0,  -267,     0,     0,     0,     0,  -267,  -267,  -267,  -267,
-    -267,     0,  -267,     0,  -267,     0,  -267,  -267,  -267,  -267,
-       0,     0,     0,     0,  -267,     0,     0,  -267,  -267,  -267,
-    -267,     0,  -267,     0,     0,     0,     0,     0,  -267,  -267,
-    -267,  -267,     0,  -267,     0,     0,     0,     0,     0,  -267,
-    -267,  -267,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -267,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -267,     0,     0,     0,     0,     0,
-       0,     0,  -267
+       0,   805,     0,     0,     0,     0,     0,     0,     0,     0,
+     729,   832,   731,   865,   732,   833,   734,   735,   834,   835,
+     836,   837,   838,   839,   742,   743,   744,   745,   840,   841,
+     842,   749,   750,   843,   844,   753,   754,   755,   845,   757,
+     758,   759,   760,   846,   847,   763,     0,     0,     0,     0,
+     764,   765,   766,   767,   768,   848,   770,   849,   772,     0,
+     773,   774,   775,   776,     0,   850,     0,   851,   779,   852,
+     853,   782,   783,   784,   785,     0,   786,   854,   855,   856,
+     857,   858,   792,   793,   794,   795,     0,   796,     0,   859,
+     860,   861,   862,   801,   802,   803,     0,     0,     0,     0,
+       0,   863,     0,     0,     0,     0,   875,     0,     0,   864,
+       0,     0,     0,     0,     0,     0,     0,     0,   805,     0,
+       0,     0,     0,     0,     0,     0,     0,   729,   832,   731,
+     865,   732,   833,   734,   735,   834,   835,   836,   837,   838,
+     839,   742,   743,   744,   745,   840,   841,   842,   749,   750,
+     843,   844,   753,   754,   755,   845,   757,   758,   759,   760,
+     846,   847,   763,     0,     0,     0,     0,   764,   765,   766,
+     767,   768,   848,   770,   849,   772,     0,   773,   774,   775,
+     776,     0,   850,     0,   851,   779,   852,   853,   782,   783,
+     784,   785,     0,   786,   854,   855,   856,   857,   858,   792,
+     793,   794,   795,     0,   796,     0,   859,   860,   861,   862,
+     801,   802,   803,     0,     0,     0,     0,     0,   863,     0,
+       0,     0,     0,     0,     0,     0,   864,   881,     0,     0,
+       0,     0,     0,     0,     0,   805,     0,     0,     0,     0,
+       0,     0,     0,     0,   729,   832,   731,   865,   732,   833,
+     734,   735,   834,   835,   836,   837,   838,   839,   742,   743,
+     744,   745,   840,   841,   842,   749,   750,   843,   844,   753,
+     754,   755,   845,   757,   758,   759,   760,   846,   847,   763,
+       0,     0,     0,     0,   764,   765,   766,   767,   768,   848,
+     770,   849,   772,     0,   773,   774,   775,   776,     0,   850,
+       0,   851,   779,   852,   853,   782,   783,   784,   785,     0,
+     786,   854,   855,   856,   857,   858,   792,   793,   794,   795,
+       0,   796,     0,   859,   860,   861,   862,   801,   802,   803,
+       0,     0,     0,     0,     0,   863,     0,     0,     0,     0,
+    -274,     0,  -274,   864,  -274,     0,  -274,  -274,     0,     0,
+       0,     0,   805,     0,  -274,  -274,  -274,  -274,     0,     0,
+       0,  -274,  -274,     0,   865,  -274,  -274,  -274,     0,  -274,
+    -274,  -274,  -274,     0,     0,  -274,     0,     0,     0,     0,
+    -274,  -274,  -274,  -274,  -274,     0,  -274,     0,  -274,     0,
+    -274,  -274,  -274,  -274,     0,     0,     0,     0,  -274,     0,
+       0,  -274,  -274,  -274,  -274,     0,  -274,     0,     0,     0,
+       0,     0,  -274,  -274,  -274,  -274,     0,  -274,     0,     0,
+       0,     0,     0,  -274,  -274,  -274,     0,     0,  -275,     0,
+    -275,     0,  -275,     0,  -275,  -275,  -274,     0,     0,     0,
+       0,     0,  -275,  -275,  -275,  -275,     0,     0,  -274,  -275,
+    -275,     0,     0,  -275,  -275,  -275,  -274,  -275,  -275,  -275,
+    -275,     0,     0,  -275,     0,     0,     0,     0,  -275,  -275,
+    -275,  -275,  -275,     0,  -275,     0,  -275,     0,  -275,  -275,
+    -275,  -275,     0,     0,     0,     0,  -275,     0,     0,  -275,
+    -275,  -275,  -275,     0,  -275,     0,     0,     0,     0,     0,
+    -275,  -275,  -275,  -275,     0,  -275,     0,     0,     0,     0,
+       0,  -275,  -275,  -275,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -275,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -275,     0,     0,     0,
+       0,     0,     0,     0,  -275
   };
 
   const short
   asn1_parser::yycheck_[] =
   {
-       9,   128,   129,   256,   140,   141,   362,   128,   129,    18,
-       0,   140,   141,     3,   557,   203,   448,   246,   460,   311,
-     207,   141,   210,     4,   500,   455,   284,   457,   216,   691,
-      31,    22,   312,    22,     4,     5,     6,     7,     4,     9,
-      22,    11,   518,     4,   213,     4,     5,   709,    22,    64,
-      20,    22,    50,    33,   307,    22,    24,   487,   213,     4,
-      24,    25,   476,   149,    34,     4,    54,    77,   112,   327,
-     206,    89,   122,    30,    50,   122,   122,   206,    77,   112,
-       9,    87,    50,   124,   211,   126,    51,    87,    50,    18,
-      50,    89,     4,    63,   450,   113,   102,   138,    50,    89,
-     150,   145,   102,   150,   150,    95,    50,   243,   126,    79,
-      29,   525,   145,    89,   243,    95,   123,   246,   124,   124,
-     126,    89,   137,   130,   124,   378,   126,    89,   126,    89,
-     673,   126,   412,   138,   114,   388,   146,    89,   126,   392,
-     110,   213,   311,   312,   806,    89,   141,   146,   149,   150,
-     140,   141,   125,   124,   111,   585,   311,   312,   149,   150,
-     130,   150,    75,    89,   137,   353,   354,   149,   421,   150,
-      89,   359,   360,     0,    93,   149,   532,   304,   149,   149,
-     150,   122,   149,   149,   150,   149,   258,   113,   149,   150,
-     149,   150,   149,   650,   203,   123,   205,    35,   207,   124,
-     862,   210,   130,   212,   149,   150,   133,   216,   217,   150,
-     149,   150,   465,   125,   126,   691,   206,   674,   130,   125,
-     124,    59,   126,   213,   126,    24,    25,   124,   364,    28,
-     672,   137,    70,   709,   138,   364,   138,   149,   150,   311,
-     312,   138,   125,   412,   364,   365,   124,   476,   126,   258,
-     125,   260,   138,   243,   137,   443,   246,   412,    16,   125,
-     138,   125,   137,   141,   150,   452,   256,   125,   258,   522,
-     700,   137,   140,   526,   527,   528,   529,   530,    56,   137,
-     572,   137,    60,   137,   126,   141,   455,   141,   457,   145,
-     445,   145,   461,   551,   449,   858,   525,   126,   370,   106,
-     455,   130,   457,   866,   562,   121,   461,    61,   121,   121,
-     126,   121,   481,   126,   126,   484,   126,   307,   487,   141,
-     676,   311,   312,   145,    17,    18,   481,   241,   871,   484,
-     106,   245,   487,   124,   125,   126,   124,   432,   126,   434,
-     412,   679,   469,   681,   353,   354,   106,   476,   149,   150,
-     359,   360,    24,    25,    44,    45,   648,    24,    25,     4,
-     432,   140,   434,   499,    71,   501,   125,   126,   621,   121,
-     499,   127,   501,   445,   364,   817,   133,   449,    53,    36,
-     370,    72,   635,   455,   816,   457,   862,   142,   378,   461,
-     137,    66,    67,   685,   142,    70,   525,   124,   388,    74,
-     592,   593,   392,   572,    56,   125,   142,   103,   103,   481,
-      85,   124,   484,    91,    89,   487,   585,   572,   124,    87,
-     124,   674,   412,   432,   103,   434,    69,    16,   138,   565,
-     585,   421,   620,   875,   443,   121,   565,   138,   691,   448,
-     124,   124,   432,   452,   434,   130,   138,   124,   124,   138,
-     150,   460,   126,    87,    87,   445,   709,    87,    87,   449,
-     124,   141,   124,    89,    90,   455,   141,   457,   138,   541,
-     141,   461,   544,   124,    22,   465,   141,   125,   137,   648,
-     126,   125,   132,   137,    87,   138,   476,   125,   137,   742,
-      58,   481,    13,   648,   484,    40,   138,   487,    40,   124,
-     572,   124,   137,     4,     5,     6,     7,    58,     9,   499,
-      11,   501,   639,   585,   140,   141,   685,   705,   123,    20,
-     130,   138,   124,   138,   150,   125,   145,   126,   125,   137,
-     685,   700,   522,    34,   543,   525,   526,   527,   528,   529,
-     530,   137,   126,   138,   145,   700,   138,   138,   557,   175,
-     803,   541,   125,   806,   544,   126,   126,   124,   137,   149,
-     124,   570,    63,   137,   125,   137,   144,   576,   127,   195,
-     127,   129,   122,     4,   150,   565,   648,   252,    79,   254,
-     127,   256,   572,    53,   210,   125,   212,   125,   137,    40,
-     216,   217,   127,   122,   125,   585,    66,    67,   137,   127,
-      70,   120,   127,   127,    74,   127,   138,   137,   125,   110,
-     137,   620,   125,   685,   137,    85,   125,   243,   104,   137,
-     246,   141,   137,   249,   250,   124,   138,   253,   700,   125,
-     138,   621,   307,   213,   137,   137,   141,   137,   148,   265,
-     138,   138,   125,   137,   137,   635,   137,     3,   149,   150,
-     243,   856,   674,   596,   657,   281,   806,   803,   648,   786,
-     787,   242,   671,   672,   673,   786,   787,   565,    90,   565,
-     679,   141,   681,   686,   646,   301,   364,    18,   687,   688,
-      32,    74,    53,   687,   674,    70,    85,   671,   543,   364,
-     365,   217,   541,    11,    49,   685,   705,   620,    44,   481,
-     697,   691,    -1,   378,   484,   336,   585,    -1,   461,    -1,
-     700,    -1,    -1,   388,    -1,   341,    -1,   392,    -1,   709,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   353,   354,    -1,
-      -1,   311,   312,   359,   360,    -1,    -1,    -1,   364,    -1,
-      -1,    -1,    -1,   213,    -1,    -1,   421,    -1,    -1,    -1,
-      -1,   246,   742,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   256,    -1,     4,     5,     6,     7,    -1,     9,    -1,
-      11,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    20,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   258,    -1,
-     465,    -1,    -1,    34,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   816,   817,    -1,
-      -1,    -1,   307,   803,    -1,    -1,   806,    -1,    -1,   445,
-      -1,    -1,    63,    -1,    -1,    -1,    -1,   453,    -1,    -1,
-      -1,    -1,   412,    -1,   460,    -1,    -1,    -1,    -1,    -1,
-      -1,   311,   312,    -1,    -1,    -1,    -1,   522,    -1,    -1,
-     476,   526,   527,   528,   529,   530,    -1,    -1,    -1,    -1,
-      -1,    -1,   871,    -1,    -1,    -1,   875,    -1,    -1,   110,
-      -1,    -1,    -1,   499,   500,   455,    -1,   457,    -1,    -1,
-      -1,   461,    -1,   378,    -1,    -1,    -1,    -1,    -1,    -1,
-     565,    -1,    -1,   388,   364,   365,    -1,   392,    -1,   525,
-     370,   481,    -1,    -1,   484,    -1,    -1,   487,   149,   150,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   421,    -1,    -1,    -1,
-      -1,   557,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   565,
-      -1,    -1,   412,    -1,    -1,    -1,   621,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     635,    -1,   432,    -1,   434,    -1,    -1,    -1,    -1,    -1,
-     465,    -1,   598,    -1,    -1,   445,    -1,    -1,    -1,   449,
-      -1,   476,    -1,    -1,    -1,   455,    -1,   457,    -1,    -1,
-      -1,   461,   572,    -1,    -1,    -1,    -1,    -1,    -1,   674,
-      -1,   676,    -1,    -1,    -1,   585,    -1,    -1,    -1,    -1,
-      -1,   481,    -1,    -1,   484,    -1,    -1,   487,    -1,   489,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   522,    -1,    -1,
-     525,   526,   527,   528,   529,   530,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   672,   673,    -1,    -1,
+       9,   128,   129,   462,   140,   141,   450,   560,   311,    18,
+       0,   502,   203,     3,   362,   128,   129,   284,   207,   210,
+     141,     4,   140,   141,   695,   216,    89,    90,     4,   520,
+     457,     4,   459,     4,    54,   312,     4,     5,     6,     7,
+      31,     9,   713,    11,    22,    24,    25,     4,     5,   149,
+      77,    50,    20,    50,   478,    50,    30,    22,    50,    77,
+     327,    22,   489,    64,    50,    89,    34,     4,    22,    50,
+     206,    33,   124,    22,    24,   137,   126,   140,   141,   141,
+     121,     0,    22,   145,     4,   126,   138,   150,   206,   113,
+      89,   141,    89,   122,    89,    63,    29,    89,   211,    89,
+      50,   525,   126,    89,   452,    95,   126,   243,    89,    53,
+     246,    79,   175,     4,     5,     6,     7,   394,     9,   146,
+      11,   150,    66,    67,   677,   243,    70,   213,   146,    20,
+      74,   126,   195,    95,    56,     9,   137,   111,    60,    89,
+     811,    85,   110,    34,    18,   125,   124,   210,   123,   212,
+     140,   141,   114,   216,   217,   130,    89,   137,   149,   150,
+      93,   588,   353,   354,   149,   150,   149,   150,   359,   360,
+     149,   149,    63,   149,   150,   149,   149,   150,   526,   150,
+     243,   149,   150,   246,   149,   150,   249,   250,    79,   150,
+     253,   304,   149,   150,   203,   149,   205,   141,   207,   870,
+     149,   210,   265,   212,   695,   125,   126,   216,   217,   149,
+     130,    89,   149,   150,   122,   112,   206,   676,   281,   110,
+     124,   654,   713,   213,   112,   311,   312,   122,   364,   149,
+     150,   121,    87,   122,   138,   113,   126,    87,   301,   130,
+      35,    51,   150,   364,   365,   678,   364,   102,   145,   258,
+     125,   260,   102,   243,   445,   150,   246,   145,   149,   150,
+     123,   150,   137,   124,    59,   454,   256,   130,   258,   124,
+      16,   126,   575,   126,   124,    70,   126,   704,   341,   124,
+     124,   126,   126,   125,   121,   138,   124,   554,   126,   126,
+     353,   354,   125,   138,   138,   137,   359,   360,   565,   138,
+     138,   364,   125,   141,   137,   866,   125,   124,   394,   126,
+     121,   150,   256,   874,   137,   126,    75,   307,   137,    24,
+      25,   311,   312,    28,   126,   241,   879,   133,   130,   245,
+     126,   434,   680,   436,    17,    18,     4,     5,     6,     7,
+     125,     9,   478,    11,   353,   354,   683,   140,   685,   652,
+     359,   360,    20,    24,    25,    44,    45,   106,   471,    24,
+      25,   125,   126,   307,   823,   501,    34,   503,   595,   596,
+     106,   457,   106,   459,   364,     4,    61,   463,   822,   870,
+     370,    71,   140,   501,   447,   503,   689,   127,   378,   525,
+     121,   133,   455,    36,   384,    63,    72,   483,   142,   462,
+     486,   142,   137,   489,   394,   124,    56,   125,   103,   142,
+     103,   124,    91,   403,   124,   478,   124,    87,    69,   103,
+     364,   365,   412,    16,   883,   434,   416,   436,   124,   138,
+     121,   138,   568,   624,   378,   138,   445,   138,   501,   502,
+     384,   450,   110,   124,   434,   454,   436,   124,   130,   124,
+     568,   150,    87,   462,   126,    87,    87,   447,   124,   403,
+      87,   451,   525,   141,   124,   138,   124,   457,   412,   459,
+      22,   125,   416,   463,   141,   137,   132,   467,   141,   125,
+     137,   149,   150,   138,   126,   138,    87,   125,   478,   575,
+     137,    58,    40,   483,    40,    13,   486,   560,   124,   489,
+     124,   137,   588,    58,   123,   568,   124,   130,   138,   125,
+     138,   501,   125,   503,   126,   137,   125,   138,   709,   126,
+     137,   126,   124,   467,   138,   145,   137,   213,   138,   124,
+     643,   137,   122,   523,   149,   525,   125,   546,   601,   213,
+     530,   137,   532,   533,   534,   535,   536,   491,   127,   127,
+     144,   560,   129,   125,   544,     4,   125,   547,   150,   127,
+     246,   213,   137,   127,   573,    40,   652,   125,   122,   256,
+     579,   137,   246,   120,   127,   137,   127,   127,   568,   523,
+     137,   137,   526,   127,   125,   575,   530,    53,   532,   533,
+     534,   535,   536,   125,   246,   539,   141,   125,   588,   138,
+      66,    67,   137,   689,    70,   138,   258,   137,    74,   138,
+     104,   137,   124,   676,   677,   624,   137,   137,   704,    85,
+     307,   125,   141,    89,   138,   311,   312,   126,   138,   137,
+     145,   148,   695,   125,   137,   625,   137,   311,   312,     3,
+     243,   599,   661,   864,   678,   811,   808,   568,    90,   639,
+     713,   242,   364,   568,   650,   690,    18,    32,   691,   311,
+     312,    74,   652,   790,   791,    53,   675,   676,   677,    70,
+      85,   701,   675,   384,   683,   141,   685,   790,   791,   546,
+     217,   625,   691,   692,   544,   624,    11,    44,   678,    49,
+     463,   378,   483,    -1,   486,   639,   336,   384,    -1,   689,
+     709,   588,    -1,    -1,    -1,   695,    -1,    -1,   394,    -1,
+      -1,    -1,    -1,    -1,   704,    -1,   403,    -1,   370,    -1,
+     394,    -1,    -1,   713,    -1,   412,    -1,    -1,    -1,   416,
+      -1,    -1,    -1,    -1,   678,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   394,    -1,    -1,   808,    -1,    -1,   811,    -1,
+      -1,   695,    -1,    -1,    -1,    -1,   746,    -1,    -1,    -1,
+     823,   447,    -1,    -1,    -1,   451,   256,    -1,    -1,   713,
+      -1,   457,    -1,   459,    -1,    -1,    -1,   463,    -1,    -1,
+     467,    -1,   434,   457,   436,   459,   252,    -1,   254,   463,
+     256,    -1,   478,    -1,    -1,   447,    -1,   483,    -1,   451,
+     486,    -1,   746,   489,   478,   457,    -1,   459,    -1,   483,
+      -1,   463,   486,   822,   823,   489,   879,   307,   808,    -1,
+     883,   811,    -1,    -1,    -1,    -1,   478,    -1,    -1,    -1,
+      -1,   483,    -1,    -1,   486,    -1,   523,   489,    -1,   525,
+      -1,   307,    -1,   530,    -1,   532,   533,   534,   535,   536,
+      -1,   525,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   808,    -1,    -1,   811,    -1,    -1,
+     879,    -1,    -1,   525,   883,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   378,   575,
+      -1,    -1,   544,    -1,   384,   547,    -1,    -1,   364,   365,
+      -1,   575,   588,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   378,   403,   588,    -1,    -1,    -1,   384,    -1,
+      -1,    -1,   412,   575,    -1,    -1,   416,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   588,   403,   625,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   412,    -1,    -1,    -1,
+     416,    -1,   639,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   652,    -1,    -1,     4,
+       5,     6,     7,    -1,     9,    -1,    11,   467,   652,    -1,
+      -1,    -1,    -1,    -1,    -1,    20,    -1,    -1,    -1,    24,
+      25,   678,    -1,    -1,    -1,    30,    -1,    -1,    -1,    34,
+     652,   467,    -1,   689,    -1,    40,    -1,    -1,   695,    -1,
+      -1,    -1,    47,    -1,    -1,   689,    -1,    -1,   704,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   713,    -1,    63,    -1,
+     704,    -1,    -1,   523,    -1,    -1,    -1,   689,    -1,    -1,
+     530,    76,   532,   533,   534,   535,   536,    -1,    -1,    -1,
+      -1,    -1,   704,    -1,    89,    -1,    -1,   523,    -1,   746,
+      -1,    -1,    -1,    -1,   530,    -1,   532,   533,   534,   535,
+     536,    -1,    -1,    -1,    -1,   110,   111,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   120,    -1,    -1,    -1,   124,
+     125,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   133,    -1,
+      -1,    -1,   568,    -1,    -1,    -1,   141,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   149,   150,    -1,    -1,    -1,    -1,
+      -1,   808,    -1,    -1,   811,    -1,     4,     5,     6,     7,
+      -1,     9,    -1,    11,    -1,   625,    -1,    -1,    -1,    -1,
+      -1,    -1,    20,    -1,    -1,    -1,    24,    25,    -1,   639,
+      -1,    -1,    30,    -1,    -1,    -1,    34,    -1,    -1,   625,
+      -1,    -1,    40,    -1,    -1,    -1,    -1,    -1,    -1,    47,
+      -1,    -1,    -1,   639,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    63,    -1,    -1,   678,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    76,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   532,    -1,    -1,   691,   536,   742,   648,    -1,
-      -1,   541,    -1,    -1,   544,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   709,    -1,    -1,    -1,     4,     5,     6,
-       7,    -1,     9,    -1,    11,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   572,    20,    -1,   685,    -1,    24,    25,    -1,
-      -1,    -1,    -1,    30,    -1,   585,    -1,    34,    -1,    -1,
-     700,    -1,    -1,    40,    -1,    -1,   621,    -1,    -1,    -1,
-      47,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     635,    -1,    -1,    -1,    -1,    -1,    63,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    76,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    89,    -1,    -1,    -1,    -1,   803,   648,   674,
-     806,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   817,    -1,   110,   111,    -1,   691,    -1,    -1,    -1,
-      -1,    -1,    -1,   120,    -1,    -1,    -1,   124,   125,    -1,
-      -1,    -1,    -1,    -1,   709,   685,   133,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   141,    -1,    -1,    -1,    -1,    -1,
-     700,    -1,   149,   150,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   871,    -1,   742,    -1,   875,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     4,
-       5,     6,     7,    -1,     9,    -1,    11,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    20,    -1,    22,   803,    24,
-      25,   806,    -1,    -1,    29,    30,    31,    32,    33,    34,
-      35,    36,    37,    38,    39,    40,    41,    42,    43,    44,
-      45,    46,    47,    48,    49,    50,    51,    52,    53,    54,
-      55,    56,    57,    58,    59,    60,    61,    62,    63,    64,
-      65,    66,    67,    68,    69,    70,    71,    72,    73,    74,
-      75,    76,    77,    78,    79,    80,    81,    82,    83,    84,
-      85,    86,    87,    88,    89,    90,    91,    92,    93,    94,
-      95,    96,    97,    98,    99,   100,   101,   102,   103,   104,
-     105,   106,   107,   108,   109,   110,   111,   112,   113,   114,
-     115,   116,   117,   118,   119,   120,    -1,    -1,    -1,   124,
-     125,    -1,    -1,   128,    -1,    -1,    -1,    -1,   133,    -1,
-      -1,    -1,   137,    -1,    -1,    -1,   141,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   149,   150,     4,     5,     6,     7,
-      -1,     9,    -1,    11,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    20,    -1,    22,    -1,    24,    25,    -1,    -1,
-      -1,    29,    30,    31,    32,    33,    34,    35,    36,    37,
-      38,    39,    40,    41,    42,    43,    44,    45,    46,    47,
-      48,    49,    50,    51,    52,    53,    54,    55,    56,    57,
-      58,    59,    60,    61,    62,    63,    64,    65,    66,    67,
-      68,    69,    70,    71,    72,    73,    74,    75,    76,    77,
-      78,    79,    80,    81,    82,    83,    84,    85,    86,    87,
-      88,    89,    90,    91,    92,    93,    94,    95,    96,    97,
-      98,    99,   100,   101,   102,   103,   104,   105,   106,   107,
-     108,   109,   110,   111,   112,   113,   114,   115,   116,   117,
-     118,   119,   120,    -1,    -1,    -1,   124,    -1,    -1,    -1,
-     128,     4,     5,     6,     7,   133,     9,    -1,    11,   137,
-      -1,    -1,    -1,   141,    -1,    -1,    -1,    20,    -1,    22,
-      -1,   149,   150,    -1,    -1,    -1,    -1,    30,    31,    32,
-      -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,    42,
-      -1,    -1,    -1,    46,    47,    48,    49,    -1,    -1,    52,
-      53,    54,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,
-      63,    64,    65,    66,    67,    68,    -1,    -1,    -1,    -1,
-      73,    74,    -1,    76,    -1,    78,    -1,    80,    -1,    -1,
-      83,    84,    85,    86,    -1,    88,    -1,    90,    -1,    -1,
-      -1,    94,    -1,    96,    97,    98,    99,   100,   101,   102,
-      -1,    -1,   105,    -1,   107,   108,   109,   110,   111,    -1,
-      -1,    -1,   115,   116,   117,   118,   119,   120,    -1,    -1,
-      -1,   124,    -1,   126,    -1,   128,     4,     5,     6,     7,
-      -1,     9,    -1,    11,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    20,    -1,    22,    -1,   149,   150,    -1,    -1,
-      -1,    -1,    30,    31,    32,    -1,    34,    -1,    -1,    37,
-      38,    39,    -1,    41,    42,    -1,    -1,    -1,    -1,    -1,
-      48,    49,    -1,    -1,    52,    53,    -1,    -1,    -1,    57,
-      -1,    -1,    -1,    -1,    62,    63,    64,    65,    66,    67,
-      68,    -1,    -1,    -1,    -1,    73,    74,    -1,    76,    -1,
-      78,    -1,    80,    -1,    -1,    83,    84,    85,    86,    -1,
-      88,    -1,    90,    -1,    -1,    -1,    94,    -1,    96,    97,
-      98,    99,   100,   101,   102,    -1,    -1,   105,    -1,   107,
-     108,   109,   110,   111,    -1,    -1,    -1,   115,   116,   117,
-     118,   119,   120,    -1,   122,    -1,    -1,    -1,   126,    -1,
-     128,    -1,    -1,    -1,    -1,    -1,    -1,     4,     5,     6,
-       7,    -1,     9,    -1,    11,    -1,    -1,    -1,    -1,    -1,
+      -1,    89,   678,    -1,   680,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   713,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   110,   111,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   120,    -1,    -1,    -1,   124,   125,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   133,   746,     4,     5,     6,
+       7,    -1,     9,   141,    11,    -1,    -1,    -1,    -1,    -1,
       -1,   149,   150,    20,    -1,    22,    -1,    24,    25,    -1,
-      -1,    -1,    -1,    30,    -1,    32,    -1,    34,    -1,    -1,
-      37,    38,    39,    40,    41,    42,    -1,    -1,    -1,    -1,
-      47,    48,    49,    -1,    -1,    52,    53,    -1,    -1,    -1,
-      57,    -1,    -1,    -1,    -1,    62,    63,    -1,    65,    66,
-      67,    68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,
-      -1,    78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,
-      -1,    88,    89,    -1,    -1,    -1,    -1,    94,    -1,    96,
-      97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,
-     107,   108,   109,   110,   111,    -1,    -1,    -1,   115,   116,
-     117,   118,   119,   120,    -1,    -1,    -1,   124,    -1,    -1,
-      -1,   128,     4,     5,     6,     7,   133,     9,    -1,    11,
-      -1,    -1,    -1,    -1,   141,    -1,    -1,    -1,    20,    -1,
-      22,    -1,   149,   150,    -1,    -1,    -1,    -1,    30,    31,
-      32,    -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,
-      42,    -1,    -1,    -1,    -1,    -1,    48,    49,    -1,    -1,
-      52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,
-      62,    63,    64,    65,    66,    67,    68,    -1,    -1,    -1,
-      -1,    73,    74,    -1,    76,    -1,    78,    -1,    80,    -1,
-      -1,    83,    84,    85,    86,    -1,    88,    -1,    90,    -1,
-      -1,    -1,    94,    -1,    96,    97,    98,    99,   100,   101,
-     102,    -1,    -1,   105,    -1,   107,   108,   109,   110,   111,
-      -1,    -1,    -1,   115,   116,   117,   118,   119,   120,    -1,
-      -1,    -1,    -1,    -1,   126,    -1,   128,    -1,    -1,    -1,
-      -1,    -1,    -1,     4,     5,     6,     7,    -1,     9,    -1,
-      11,    -1,    -1,    -1,    -1,    -1,    -1,   149,   150,    20,
-      -1,    22,    -1,    24,    25,    -1,    -1,    -1,    -1,    30,
-      -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,    40,
-      41,    42,    -1,    -1,    -1,    -1,    47,    48,    49,    -1,
-      -1,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,
-      -1,    62,    63,    -1,    65,    66,    67,    68,    -1,    -1,
-      -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,    -1,
-      -1,    -1,    83,    84,    85,    86,    -1,    88,    89,    -1,
-      -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,   100,
-      -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,   110,
-     111,    -1,    -1,    -1,   115,   116,   117,   118,   119,   120,
-      -1,    -1,    -1,   124,    -1,    -1,    -1,   128,     4,     5,
-       6,     7,   133,     9,    -1,    11,    -1,    -1,    -1,    -1,
-     141,    -1,    -1,    -1,    20,    -1,    22,    -1,   149,   150,
-      -1,    -1,    -1,    -1,    30,    -1,    32,    -1,    34,    -1,
-      -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,
-      -1,    -1,    48,    49,    -1,    -1,    52,    53,    -1,    -1,
-      -1,    57,    -1,    -1,    -1,    -1,    62,    63,    64,    65,
-      66,    67,    68,    -1,    -1,    -1,    -1,    73,    74,    -1,
-      76,    -1,    78,    -1,    80,    -1,    -1,    83,    84,    85,
-      86,    -1,    88,    -1,    90,    -1,    -1,    -1,    94,    -1,
-      96,    97,    98,    99,   100,   101,   102,     4,     5,   105,
-      -1,   107,   108,   109,   110,   111,    -1,    -1,    -1,   115,
-     116,   117,   118,   119,   120,    22,    -1,    -1,    -1,    -1,
-     126,    -1,   128,    30,    -1,    32,    -1,    34,    -1,    -1,
-      37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,    -1,
-      -1,    48,    49,   149,   150,    52,    53,    -1,    -1,    -1,
-      57,    -1,    -1,    -1,    -1,    62,    -1,    -1,    65,    66,
-      67,    68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,
-      -1,    78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,
-      -1,    88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,
-      97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,
-     107,   108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,
-     117,   118,   119,    -1,    -1,     4,     5,     6,     7,    -1,
-       9,   128,    11,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    20,    -1,    22,    -1,    24,    25,    -1,    -1,    -1,
-      -1,    30,   149,   150,    -1,    34,    -1,     4,     5,     6,
-       7,    40,     9,    -1,    11,    -1,    -1,    -1,    47,    -1,
-      -1,    -1,    -1,    20,    -1,    -1,    -1,    24,    25,    -1,
-      -1,    -1,    -1,    30,    63,    -1,    -1,    34,    -1,    -1,
-      -1,    -1,    -1,    40,    -1,    -1,    -1,    76,    -1,    -1,
-      47,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      89,    -1,    -1,    -1,    -1,    -1,    63,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    76,
-      -1,   110,   111,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   120,    89,    -1,    -1,   124,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   133,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   141,   110,   111,    -1,    -1,    -1,    -1,    -1,
-     149,   150,    -1,   120,    -1,    -1,    -1,   124,    -1,    -1,
-      -1,    22,    -1,    -1,    -1,    -1,   133,    -1,    -1,    30,
-      -1,    32,    -1,    34,   141,    -1,    37,    38,    39,    -1,
-      41,    42,   149,   150,    45,    -1,    -1,    48,    49,    -1,
-      -1,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,
+     746,    -1,    29,    30,    31,    32,    33,    34,    35,    36,
+      37,    38,    39,    40,    41,    42,    43,    44,    45,    46,
+      47,    48,    49,    50,    51,    52,    53,    54,    55,    56,
+      57,    58,    59,    60,    61,    62,    63,    64,    65,    66,
+      67,    68,    69,    70,    71,    72,    73,    74,    75,    76,
+      77,    78,    79,    80,    81,    82,    83,    84,    85,    86,
+      87,    88,    89,    90,    91,    92,    93,    94,    95,    96,
+      97,    98,    99,   100,   101,   102,   103,   104,   105,   106,
+     107,   108,   109,   110,   111,   112,   113,   114,   115,   116,
+     117,   118,   119,   120,    -1,    -1,    -1,   124,   125,    -1,
+      -1,   128,    -1,    -1,    -1,    -1,   133,    -1,    -1,    -1,
+     137,    -1,    -1,    -1,   141,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   149,   150,     4,     5,     6,     7,    -1,     9,
+      -1,    11,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      20,    -1,    22,    -1,    24,    25,    -1,    -1,    -1,    29,
+      30,    31,    32,    33,    34,    35,    36,    37,    38,    39,
+      40,    41,    42,    43,    44,    45,    46,    47,    48,    49,
+      50,    51,    52,    53,    54,    55,    56,    57,    58,    59,
+      60,    61,    62,    63,    64,    65,    66,    67,    68,    69,
+      70,    71,    72,    73,    74,    75,    76,    77,    78,    79,
+      80,    81,    82,    83,    84,    85,    86,    87,    88,    89,
+      90,    91,    92,    93,    94,    95,    96,    97,    98,    99,
+     100,   101,   102,   103,   104,   105,   106,   107,   108,   109,
+     110,   111,   112,   113,   114,   115,   116,   117,   118,   119,
+     120,    -1,    -1,    -1,   124,    -1,    -1,    -1,   128,     4,
+       5,     6,     7,   133,     9,    -1,    11,   137,    -1,    -1,
+      -1,   141,    -1,    -1,    -1,    20,    -1,    22,    -1,   149,
+     150,    -1,    -1,    -1,    -1,    30,    31,    32,    -1,    34,
+      -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
+      -1,    46,    47,    48,    49,    -1,    -1,    52,    53,    54,
+      -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    63,    64,
+      65,    66,    67,    68,    -1,    -1,    -1,    -1,    73,    74,
+      -1,    76,    -1,    78,    -1,    80,    -1,    -1,    83,    84,
+      85,    86,    -1,    88,    -1,    90,    -1,    -1,    -1,    94,
+      -1,    96,    97,    98,    99,   100,   101,   102,    -1,    -1,
+     105,    -1,   107,   108,   109,   110,   111,    -1,    -1,    -1,
+     115,   116,   117,   118,   119,   120,    -1,    -1,    -1,   124,
+      -1,   126,    -1,   128,     4,     5,     6,     7,    -1,     9,
+      -1,    11,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      20,    -1,    22,    -1,   149,   150,    -1,    -1,    -1,    -1,
+      30,    31,    32,    -1,    34,    -1,    -1,    37,    38,    39,
+      -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,    49,
+      -1,    -1,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,
+      -1,    -1,    62,    63,    64,    65,    66,    67,    68,    -1,
+      -1,    -1,    -1,    73,    74,    -1,    76,    -1,    78,    -1,
+      80,    -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,
+      90,    -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,
+     100,   101,   102,    -1,    -1,   105,    -1,   107,   108,   109,
+     110,   111,    -1,    -1,    -1,   115,   116,   117,   118,   119,
+     120,    -1,   122,    -1,    -1,    -1,   126,    -1,   128,     4,
+       5,     6,     7,    -1,     9,    -1,    11,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    20,    -1,    22,    -1,   149,
+     150,    -1,    -1,    -1,    -1,    30,    31,    32,    -1,    34,
+      -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
+      -1,    -1,    -1,    48,    49,    -1,    -1,    52,    53,    -1,
+      -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    63,    64,
+      65,    66,    67,    68,    -1,    -1,    -1,    -1,    73,    74,
+      -1,    76,    -1,    78,    -1,    80,    -1,    -1,    83,    84,
+      85,    86,    -1,    88,    -1,    90,    -1,    -1,    -1,    94,
+      -1,    96,    97,    98,    99,   100,   101,   102,    -1,    -1,
+     105,    -1,   107,   108,   109,   110,   111,    -1,    -1,    -1,
+     115,   116,   117,   118,   119,   120,    -1,    -1,    -1,    -1,
+      -1,   126,    -1,   128,    -1,    -1,    -1,    -1,    -1,    -1,
+       4,     5,     6,     7,    -1,     9,    -1,    11,    -1,    -1,
+      -1,    -1,    -1,    -1,   149,   150,    20,    -1,    22,    -1,
+      24,    25,    -1,    -1,    -1,    -1,    30,    -1,    32,    -1,
+      34,    -1,    -1,    37,    38,    39,    40,    41,    42,    -1,
+      -1,    -1,    -1,    47,    48,    49,    -1,    -1,    52,    53,
+      -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    63,
+      -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,
+      74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,
+      84,    85,    86,    -1,    88,    89,    -1,    -1,    -1,    -1,
+      94,    -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,
+      -1,   105,    -1,   107,   108,   109,   110,   111,    -1,    -1,
+      -1,   115,   116,   117,   118,   119,   120,    -1,    -1,    -1,
+     124,    -1,    -1,    -1,   128,     4,     5,     6,     7,   133,
+       9,    -1,    11,    -1,    -1,    -1,    -1,   141,    -1,    -1,
+      -1,    20,    -1,    22,    -1,   149,   150,    -1,    -1,    -1,
+      -1,    30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,
+      39,    -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,
+      49,    -1,    -1,    52,    53,    -1,    -1,    -1,    57,    -1,
+      -1,    -1,    -1,    62,    63,    64,    65,    66,    67,    68,
+      -1,    -1,    -1,    -1,    73,    74,    -1,    76,    -1,    78,
+      -1,    80,    -1,    -1,    83,    84,    85,    86,    -1,    88,
+      -1,    90,    -1,    -1,    -1,    94,    -1,    96,    97,    98,
+      99,   100,   101,   102,    -1,    -1,   105,    -1,   107,   108,
+     109,   110,   111,    -1,    -1,    -1,   115,   116,   117,   118,
+     119,   120,    -1,    -1,    -1,    -1,    -1,   126,    -1,   128,
+       4,     5,     6,     7,    -1,     9,    -1,    11,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    22,    -1,
+     149,   150,    -1,    -1,    -1,    -1,    30,    -1,    32,    -1,
+      34,    -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,
+      -1,    -1,    -1,    -1,    48,    49,    -1,    -1,    52,    53,
+      -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    63,
+      -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,
+      74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,
+      84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,
+      94,    -1,    96,    97,    98,    99,   100,    -1,    -1,     4,
+       5,   105,    -1,   107,   108,   109,   110,   111,    -1,    -1,
+      -1,   115,   116,   117,   118,   119,    -1,    22,    -1,    -1,
+     124,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,
+      -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
+      -1,    -1,    -1,    48,    49,   149,   150,    52,    53,    -1,
+      -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,    -1,
+      65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,    74,
+      -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,    84,
+      85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,    94,
+      -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,
+     105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,
+     115,   116,   117,   118,   119,    -1,    -1,     4,     5,     6,
+       7,    -1,     9,   128,    11,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    20,    -1,    22,    -1,    24,    25,    -1,
+      -1,    -1,    -1,    30,   149,   150,    -1,    34,    -1,     4,
+       5,     6,     7,    40,     9,    -1,    11,    -1,    -1,    -1,
+      47,    -1,    -1,    -1,    -1,    20,    -1,    -1,    -1,    24,
+      25,    -1,    -1,    -1,    -1,    30,    63,    -1,    -1,    34,
+      -1,    -1,    -1,    -1,    -1,    40,    -1,    -1,    -1,    76,
+      -1,    -1,    47,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    89,    -1,    -1,    -1,    -1,    -1,    63,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    76,    -1,   110,   111,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   120,    89,    -1,    -1,   124,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   133,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   141,   110,   111,    -1,    -1,    -1,
+      -1,    -1,   149,   150,    -1,   120,    -1,    -1,    -1,   124,
+      -1,    -1,    -1,    22,    -1,    -1,    -1,    -1,   133,    -1,
+      -1,    30,    -1,    32,    -1,    34,   141,    -1,    37,    38,
+      39,    -1,    41,    42,   149,   150,    45,    -1,    -1,    48,
+      49,    -1,    -1,    52,    53,    -1,    -1,    -1,    57,    -1,
+      -1,    -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,
+      -1,    -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,
+      -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,
+      -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,
+      99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,
+     109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,
+     119,    -1,    22,   122,    -1,    -1,   125,    -1,    -1,   128,
+      30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,
+      -1,    41,    42,    -1,    -1,    45,    -1,    -1,    48,    49,
+     149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,
+      -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,    -1,
+      -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,
+      -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,
+      -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,
+     100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,
+      -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,   119,
+      -1,    22,   122,    -1,    -1,   125,    -1,    -1,   128,    30,
+      -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,    -1,
+      41,    42,    -1,    -1,    -1,    -1,    -1,    48,    49,   149,
+     150,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,
       -1,    62,    -1,    -1,    65,    66,    67,    68,    -1,    -1,
       -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,    -1,
       -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,    -1,
       -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,   100,
       -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,    -1,
      111,    -1,    -1,    -1,   115,   116,   117,   118,   119,    -1,
-      22,   122,    -1,    -1,   125,    -1,    -1,   128,    30,    -1,
-      32,    -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,
-      42,    -1,    -1,    45,    -1,    -1,    48,    49,   149,   150,
-      52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,
-      62,    -1,    -1,    65,    66,    67,    68,    -1,    -1,    -1,
-      -1,    -1,    74,    -1,    76,    -1,    78,    -1,    -1,    -1,
-      -1,    83,    84,    85,    86,    -1,    88,    -1,    -1,    -1,
-      -1,    -1,    94,    -1,    96,    97,    98,    99,   100,    -1,
-      -1,    -1,    -1,   105,    -1,   107,   108,   109,    -1,   111,
-      -1,    -1,    -1,   115,   116,   117,   118,   119,    -1,    22,
-     122,    -1,    -1,   125,    -1,    -1,   128,    30,    -1,    32,
-      -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,    42,
-      -1,    -1,    -1,    -1,    -1,    48,    49,   149,   150,    52,
-      53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,
-      -1,    -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,
-      -1,    74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,
-      83,    84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,
-      -1,    94,    -1,    96,    97,    98,    99,   100,    -1,    -1,
-      -1,    -1,   105,    -1,   107,   108,   109,    -1,   111,    -1,
-      -1,    -1,   115,   116,   117,   118,   119,    -1,   121,    -1,
-      -1,   124,    22,    -1,    -1,   128,    -1,    -1,    -1,    -1,
+     121,    -1,    -1,   124,    22,    -1,    -1,   128,    -1,    -1,
+      -1,    -1,    30,    -1,    32,    -1,    34,    -1,    -1,    37,
+      38,    39,    -1,    41,    42,    -1,    -1,    -1,   149,   150,
+      48,    49,    -1,    -1,    52,    53,    -1,    -1,    -1,    57,
+      -1,    59,    -1,    -1,    62,    -1,    -1,    65,    66,    67,
+      68,    -1,    70,    -1,    -1,    -1,    74,    -1,    76,    -1,
+      78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,
+      88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,
+      98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,
+     108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,
+     118,   119,    -1,    22,    -1,    -1,    -1,    -1,    -1,    -1,
+     128,    30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,
+      39,    -1,    41,    42,    -1,    -1,    45,    -1,    -1,    48,
+      49,   149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,
+      -1,    -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,
+      -1,    -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,
+      -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,
+      -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,
+      99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,
+     109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,
+     119,    -1,    22,   122,    24,    25,    -1,    -1,    -1,   128,
       30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,
-      -1,    41,    42,    -1,    -1,    -1,   149,   150,    48,    49,
-      -1,    -1,    52,    53,    -1,    -1,    -1,    57,    -1,    59,
+      -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,    49,
+     149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,
       -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,    -1,
-      70,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,
+      -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,
       -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,
       -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,
      100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,
@@ -11328,9 +11352,9 @@ namespace yy {
       -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,   100,
       -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,    -1,
      111,    -1,    -1,    -1,   115,   116,   117,   118,   119,    -1,
-      22,   122,    24,    25,    -1,    -1,    -1,   128,    30,    -1,
+      22,   122,    -1,    -1,    -1,    -1,    -1,   128,    30,    -1,
       32,    -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,
-      42,    -1,    -1,    -1,    -1,    -1,    48,    49,   149,   150,
+      42,    -1,    -1,    45,    -1,    -1,    48,    49,   149,   150,
       52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,
       62,    -1,    -1,    65,    66,    67,    68,    -1,    -1,    -1,
       -1,    -1,    74,    -1,    76,    -1,    78,    -1,    -1,    -1,
@@ -11338,7 +11362,7 @@ namespace yy {
       -1,    -1,    94,    -1,    96,    97,    98,    99,   100,    -1,
       -1,    -1,    -1,   105,    -1,   107,   108,   109,    -1,   111,
       -1,    -1,    -1,   115,   116,   117,   118,   119,    -1,    22,
-      -1,    -1,    -1,    -1,    -1,    -1,   128,    30,    -1,    32,
+     122,    -1,    -1,    -1,    -1,    -1,   128,    30,    -1,    32,
       -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,    42,
       -1,    -1,    45,    -1,    -1,    48,    49,   149,   150,    52,
       53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,
@@ -11350,24 +11374,24 @@ namespace yy {
       -1,    -1,   115,   116,   117,   118,   119,    -1,    22,   122,
       -1,    -1,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,
       34,    -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,
-      -1,    45,    -1,    -1,    48,    49,   149,   150,    52,    53,
+      -1,    -1,    -1,    -1,    48,    49,   149,   150,    52,    53,
       -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,
       -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,
       74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,
       84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,
       94,    -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,
       -1,   105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,
-      -1,   115,   116,   117,   118,   119,    -1,    22,   122,    -1,
-      -1,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,
-      -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
-      45,    -1,    -1,    48,    49,   149,   150,    52,    53,    -1,
+      -1,   115,   116,   117,   118,   119,    -1,    22,    -1,    -1,
+     124,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,
+      -1,    -1,    37,    38,    39,    -1,    41,    42,    43,    -1,
+      -1,    -1,    -1,    48,    49,   149,   150,    52,    53,    -1,
       -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,    -1,
       65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,    74,
       -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,    84,
       85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,    94,
       -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,
      105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,
-     115,   116,   117,   118,   119,    -1,    22,   122,    -1,    -1,
+     115,   116,   117,   118,   119,    -1,    22,    -1,    -1,    -1,
       -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,    -1,
       -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,
       -1,    -1,    48,    49,   149,   150,    52,    53,    -1,    -1,
@@ -11376,31 +11400,31 @@ namespace yy {
       76,    -1,    78,    -1,    -1,    -1,    -1,    83,    84,    85,
       86,    -1,    88,    -1,    -1,    -1,    -1,    -1,    94,    -1,
       96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,
-      -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,   115,
-     116,   117,   118,   119,    -1,    22,    -1,    -1,   124,    -1,
-      -1,    -1,   128,    30,    -1,    32,    -1,    34,    -1,    -1,
-      37,    38,    39,    -1,    41,    42,    43,    -1,    -1,    -1,
-      -1,    48,    49,   149,   150,    52,    53,    -1,    -1,    -1,
-      57,    -1,    -1,    -1,    -1,    62,    -1,    -1,    65,    66,
-      67,    68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,
-      -1,    78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,
-      -1,    88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,
-      97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,
-     107,   108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,
-     117,   118,   119,    -1,    22,    -1,    -1,    -1,    -1,    -1,
-      -1,   128,    30,    -1,    32,    -1,    34,    -1,    -1,    37,
-      38,    39,    -1,    41,    42,    -1,    -1,    -1,    -1,    -1,
-      48,    49,   149,   150,    52,    53,    -1,    -1,    -1,    57,
-      -1,    -1,    -1,    -1,    62,    -1,    -1,    65,    66,    67,
-      68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,    -1,
-      78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,
-      88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,
-      98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,
-     108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,
-     118,   119,    -1,   121,    -1,    -1,    -1,    22,    -1,    -1,
-     128,    -1,    -1,    -1,    -1,    30,    -1,    32,    -1,    34,
+      -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,   115,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,    22,
+      -1,    -1,   128,    -1,    -1,    -1,    -1,    30,    -1,    32,
+      -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,    42,
+      -1,    -1,    -1,   149,   150,    48,    49,    -1,    -1,    52,
+      53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,
+      -1,    -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,
+      -1,    74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,
+      83,    84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,
+      -1,    94,    -1,    96,    97,    98,    99,   100,    -1,    -1,
+      -1,    -1,   105,    -1,   107,   108,   109,    -1,   111,    -1,
+      -1,    -1,   115,   116,   117,   118,   119,    -1,    22,    -1,
+      -1,    -1,    -1,    -1,    -1,   128,    30,   130,    32,    -1,
+      34,    -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,
+      -1,    -1,    -1,    -1,    48,    49,   149,   150,    52,    53,
+      -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,
+      -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,
+      74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,
+      84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,
+      94,    -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,
+      -1,   105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,
+      -1,   115,   116,   117,   118,   119,    -1,    22,   122,    -1,
+      -1,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,
       -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
-      -1,   149,   150,    48,    49,    -1,    -1,    52,    53,    -1,
+      45,    -1,    -1,    48,    49,   149,   150,    52,    53,    -1,
       -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,    -1,
       65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,    74,
       -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,    84,
@@ -11408,7 +11432,7 @@ namespace yy {
       -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,
      105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,
      115,   116,   117,   118,   119,    -1,    22,    -1,    -1,    -1,
-      -1,    -1,    -1,   128,    30,   130,    32,    -1,    34,    -1,
+      -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,    -1,
       -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,
       -1,    -1,    48,    49,   149,   150,    52,    53,    -1,    -1,
       -1,    57,    -1,    -1,    -1,    -1,    62,    -1,    -1,    65,
@@ -11417,9 +11441,9 @@ namespace yy {
       86,    -1,    88,    -1,    -1,    -1,    -1,    -1,    94,    -1,
       96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,
       -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,   115,
-     116,   117,   118,   119,    -1,    22,   122,    -1,    -1,    -1,
+     116,   117,   118,   119,    -1,    22,    -1,    -1,    -1,    -1,
       -1,    -1,   128,    30,    -1,    32,    -1,    34,    -1,    -1,
-      37,    38,    39,    -1,    41,    42,    -1,    -1,    45,    -1,
+      37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,    -1,
       -1,    48,    49,   149,   150,    52,    53,    -1,    -1,    -1,
       57,    -1,    -1,    -1,    -1,    62,    -1,    -1,    65,    66,
       67,    68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,
@@ -11437,188 +11461,169 @@ namespace yy {
       88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,
       98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,
      108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,
-     118,   119,    -1,    22,    -1,    -1,    -1,    -1,    -1,    -1,
-     128,    30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,
-      39,    -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,
-      49,   149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,
-      -1,    -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,
-      -1,    -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,
-      -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,
-      -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,
-      99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,
-     109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,
-     119,    -1,    22,    -1,    -1,    -1,    -1,    -1,    -1,   128,
-      30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,
-      -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,    49,
-     149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,
-      -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,    -1,
-      -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,
-      -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,
-      -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,
-     100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,
-      -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,   119,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   128,    -1,
+     118,   119,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     128,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    24,    25,
+      -1,   149,   150,    29,    30,    31,    -1,    33,    34,    35,
+      36,    37,    38,    39,    40,    41,    42,    43,    44,    45,
+      46,    47,    48,    49,    50,    51,    52,    53,    54,    55,
+      56,    57,    58,    59,    60,    61,    62,    63,    64,    -1,
+      -1,    -1,    -1,    69,    70,    71,    72,    73,    74,    75,
+      76,    77,    -1,    79,    80,    81,    82,    -1,    84,    -1,
+      86,    87,    88,    89,    90,    91,    92,    93,    -1,    95,
+      96,    97,    98,    99,   100,   101,   102,   103,   104,    -1,
+     106,    -1,   108,   109,   110,   111,   112,   113,   114,    -1,
+      -1,    -1,    -1,    -1,   120,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    24,    25,    -1,   149,
-     150,    29,    30,    31,    -1,    33,    34,    35,    36,    37,
-      38,    39,    40,    41,    42,    43,    44,    45,    46,    47,
-      48,    49,    50,    51,    52,    53,    54,    55,    56,    57,
-      58,    59,    60,    61,    62,    63,    64,    -1,    -1,    -1,
-      -1,    69,    70,    71,    72,    73,    74,    75,    76,    77,
-      -1,    79,    80,    81,    82,    -1,    84,    -1,    86,    87,
-      88,    89,    90,    91,    92,    93,    -1,    95,    96,    97,
-      98,    99,   100,   101,   102,   103,   104,    -1,   106,    -1,
-     108,   109,   110,   111,   112,   113,   114,    -1,    -1,    -1,
-      -1,    -1,   120,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   137,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    29,    30,
-      31,   149,    33,    34,    35,    36,    37,    38,    39,    40,
-      41,    42,    43,    44,    45,    46,    47,    48,    49,    50,
-      51,    52,    53,    54,    55,    56,    57,    58,    59,    60,
-      61,    62,    63,    64,    -1,    -1,    -1,    -1,    69,    70,
-      71,    72,    73,    74,    75,    76,    77,    -1,    79,    80,
-      81,    82,    -1,    84,    -1,    86,    87,    88,    89,    90,
-      91,    92,    93,    -1,    95,    96,    97,    98,    99,   100,
-     101,   102,   103,   104,    -1,   106,    -1,   108,   109,   110,
-     111,   112,   113,   114,    -1,    -1,    -1,    -1,    -1,   120,
-      -1,    -1,    -1,    -1,   125,    -1,    -1,   128,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   137,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    29,    30,    31,   149,    33,
-      34,    35,    36,    37,    38,    39,    40,    41,    42,    43,
-      44,    45,    46,    47,    48,    49,    50,    51,    52,    53,
-      54,    55,    56,    57,    58,    59,    60,    61,    62,    63,
-      64,    -1,    -1,    -1,    -1,    69,    70,    71,    72,    73,
-      74,    75,    76,    77,    -1,    79,    80,    81,    82,    -1,
-      84,    -1,    86,    87,    88,    89,    90,    91,    92,    93,
-      -1,    95,    96,    97,    98,    99,   100,   101,   102,   103,
-     104,    -1,   106,    -1,   108,   109,   110,   111,   112,   113,
-     114,    -1,    -1,    -1,    -1,    -1,   120,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   128,   129,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   137,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    29,    30,    31,   149,    33,    34,    35,    36,
-      37,    38,    39,    40,    41,    42,    43,    44,    45,    46,
-      47,    48,    49,    50,    51,    52,    53,    54,    55,    56,
-      57,    58,    59,    60,    61,    62,    63,    64,    -1,    -1,
-      -1,    -1,    69,    70,    71,    72,    73,    74,    75,    76,
-      77,    -1,    79,    80,    81,    82,    -1,    84,    -1,    86,
-      87,    88,    89,    90,    91,    92,    93,    -1,    95,    96,
-      97,    98,    99,   100,   101,   102,   103,   104,    -1,   106,
-      -1,   108,   109,   110,   111,   112,   113,   114,    -1,    -1,
-      -1,    -1,    -1,   120,    -1,    -1,    -1,    -1,    29,    -1,
-      31,   128,    33,    -1,    35,    36,    -1,    -1,    -1,    -1,
-     137,    -1,    43,    44,    45,    46,    -1,    -1,    -1,    50,
-      51,    -1,   149,    54,    55,    56,    -1,    58,    59,    60,
+      -1,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      29,    30,    31,   149,    33,    34,    35,    36,    37,    38,
+      39,    40,    41,    42,    43,    44,    45,    46,    47,    48,
+      49,    50,    51,    52,    53,    54,    55,    56,    57,    58,
+      59,    60,    61,    62,    63,    64,    -1,    -1,    -1,    -1,
+      69,    70,    71,    72,    73,    74,    75,    76,    77,    -1,
+      79,    80,    81,    82,    -1,    84,    -1,    86,    87,    88,
+      89,    90,    91,    92,    93,    -1,    95,    96,    97,    98,
+      99,   100,   101,   102,   103,   104,    -1,   106,    -1,   108,
+     109,   110,   111,   112,   113,   114,    -1,    -1,    -1,    -1,
+      -1,   120,    -1,    -1,    -1,    -1,   125,    -1,    -1,   128,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    29,    30,    31,
+     149,    33,    34,    35,    36,    37,    38,    39,    40,    41,
+      42,    43,    44,    45,    46,    47,    48,    49,    50,    51,
+      52,    53,    54,    55,    56,    57,    58,    59,    60,    61,
+      62,    63,    64,    -1,    -1,    -1,    -1,    69,    70,    71,
+      72,    73,    74,    75,    76,    77,    -1,    79,    80,    81,
+      82,    -1,    84,    -1,    86,    87,    88,    89,    90,    91,
+      92,    93,    -1,    95,    96,    97,    98,    99,   100,   101,
+     102,   103,   104,    -1,   106,    -1,   108,   109,   110,   111,
+     112,   113,   114,    -1,    -1,    -1,    -1,    -1,   120,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   128,   129,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    29,    30,    31,   149,    33,    34,
+      35,    36,    37,    38,    39,    40,    41,    42,    43,    44,
+      45,    46,    47,    48,    49,    50,    51,    52,    53,    54,
+      55,    56,    57,    58,    59,    60,    61,    62,    63,    64,
+      -1,    -1,    -1,    -1,    69,    70,    71,    72,    73,    74,
+      75,    76,    77,    -1,    79,    80,    81,    82,    -1,    84,
+      -1,    86,    87,    88,    89,    90,    91,    92,    93,    -1,
+      95,    96,    97,    98,    99,   100,   101,   102,   103,   104,
+      -1,   106,    -1,   108,   109,   110,   111,   112,   113,   114,
+      -1,    -1,    -1,    -1,    -1,   120,    -1,    -1,    -1,    -1,
+      29,    -1,    31,   128,    33,    -1,    35,    36,    -1,    -1,
+      -1,    -1,   137,    -1,    43,    44,    45,    46,    -1,    -1,
+      -1,    50,    51,    -1,   149,    54,    55,    56,    -1,    58,
+      59,    60,    61,    -1,    -1,    64,    -1,    -1,    -1,    -1,
+      69,    70,    71,    72,    73,    -1,    75,    -1,    77,    -1,
+      79,    80,    81,    82,    -1,    -1,    -1,    -1,    87,    -1,
+      -1,    90,    91,    92,    93,    -1,    95,    -1,    -1,    -1,
+      -1,    -1,   101,   102,   103,   104,    -1,   106,    -1,    -1,
+      -1,    -1,    -1,   112,   113,   114,    -1,    -1,    29,    -1,
+      31,    -1,    33,    -1,    35,    36,   125,    -1,    -1,    -1,
+      -1,    -1,    43,    44,    45,    46,    -1,    -1,   137,    50,
+      51,    -1,    -1,    54,    55,    56,   145,    58,    59,    60,
       61,    -1,    -1,    64,    -1,    -1,    -1,    -1,    69,    70,
       71,    72,    73,    -1,    75,    -1,    77,    -1,    79,    80,
       81,    82,    -1,    -1,    -1,    -1,    87,    -1,    -1,    90,
       91,    92,    93,    -1,    95,    -1,    -1,    -1,    -1,    -1,
      101,   102,   103,   104,    -1,   106,    -1,    -1,    -1,    -1,
-      -1,   112,   113,   114,    -1,    -1,    29,    -1,    31,    -1,
-      33,    -1,    35,    36,   125,    -1,    -1,    -1,    -1,    -1,
-      43,    44,    45,    46,    -1,    -1,   137,    50,    51,    -1,
-      -1,    54,    55,    56,   145,    58,    59,    60,    61,    -1,
-      -1,    64,    -1,    -1,    -1,    -1,    69,    70,    71,    72,
-      73,    -1,    75,    -1,    77,    -1,    79,    80,    81,    82,
-      -1,    -1,    -1,    -1,    87,    -1,    -1,    90,    91,    92,
-      93,    -1,    95,    -1,    -1,    -1,    -1,    -1,   101,   102,
-     103,   104,    -1,   106,    -1,    -1,    -1,    -1,    -1,   112,
-     113,   114,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   125,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   137,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   145
+      -1,   112,   113,   114,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   145
   };
 
   const short
   asn1_parser::yystos_[] =
   {
-       0,   149,   154,   155,   228,   375,     0,   154,    51,   124,
+       0,   149,   154,   155,   228,   376,     0,   154,    51,   124,
      229,   230,   231,    16,   236,     4,   150,   232,   233,   234,
-     235,   310,   373,   133,   315,    75,    35,    59,    70,   237,
-     125,   232,   126,   140,   316,   106,   106,   106,    61,   238,
-     234,    17,    18,   318,   140,   317,    71,   121,   127,   318,
-     133,    36,   317,    60,   239,   240,    31,   149,   150,   241,
-     247,   248,   249,   372,   374,   227,    72,   242,   142,   142,
+     235,   311,   374,   133,   316,    75,    35,    59,    70,   237,
+     125,   232,   126,   140,   317,   106,   106,   106,    61,   238,
+     234,    17,    18,   319,   140,   318,    71,   121,   127,   319,
+     133,    36,   318,    60,   239,   240,    31,   149,   150,   241,
+     247,   248,   249,   373,   375,   227,    72,   242,   142,   142,
      137,   124,    56,   243,   244,   245,   247,   160,   199,   203,
-     204,   205,   206,   207,   250,   251,   260,   261,   262,   372,
-     374,   248,   125,   142,   245,    64,   250,    22,    30,    32,
+     204,   205,   206,   207,   250,   251,   261,   262,   263,   373,
+     375,   248,   125,   142,   245,    64,   250,    22,    30,    32,
       34,    37,    38,    39,    41,    42,    48,    49,    52,    53,
       57,    62,    65,    66,    67,    68,    74,    76,    78,    83,
       84,    85,    86,    88,    94,    96,    97,    98,    99,   100,
      105,   107,   108,   109,   111,   115,   116,   117,   118,   119,
      121,   124,   128,   149,   159,   187,   188,   197,   198,   202,
-     208,   213,   214,   215,   216,   252,   254,   258,   263,   264,
-     272,   274,   278,   282,   283,   286,   287,   288,   292,   293,
-     294,   295,   299,   300,   301,   302,   306,   313,   314,   319,
-     320,   321,   322,   324,   325,   326,   327,   328,   329,   330,
-     331,   332,   372,   373,   375,   208,   263,   372,   375,   246,
-     375,   103,   103,   124,    91,   124,    87,   124,    69,   103,
-      87,   102,   124,   126,   333,   357,    87,   124,   333,   357,
-      43,   149,   157,   158,   159,   161,   162,   263,   375,   376,
-     150,   157,   209,   210,   211,   212,   249,   263,   372,    16,
-     303,   138,   121,   121,   263,   138,   124,   121,   333,    59,
-      70,   263,   138,   130,   138,   263,   121,   138,   124,   307,
-     124,   265,   296,   297,   298,   373,   122,   276,   279,   280,
-     281,   373,   149,   157,   159,   375,   275,   276,   373,   263,
-     265,   373,   333,    45,   122,   125,   263,   265,   289,   290,
-     291,     4,     5,     6,     7,     9,    11,    20,    31,    34,
+     208,   213,   214,   215,   216,   252,   254,   259,   264,   265,
+     273,   275,   279,   283,   284,   287,   288,   289,   293,   294,
+     295,   296,   300,   301,   302,   303,   307,   314,   315,   320,
+     321,   322,   323,   325,   326,   327,   328,   329,   330,   331,
+     332,   333,   373,   374,   376,   208,   264,   373,   376,   246,
+     376,   103,   103,   124,    91,   124,    87,   124,    69,   103,
+      87,   102,   124,   126,   334,   358,    87,   124,   334,   358,
+      43,   149,   157,   158,   159,   161,   162,   264,   376,   377,
+     150,   157,   209,   210,   211,   212,   249,   264,   373,    16,
+     304,   138,   121,   121,   264,   138,   124,   121,   334,    59,
+      70,   264,   138,   130,   138,   264,   121,   138,   124,   308,
+     124,   266,   297,   298,   299,   374,   122,   277,   280,   281,
+     282,   374,   149,   157,   159,   376,   276,   277,   374,   264,
+     266,   374,   334,    45,   122,   125,   264,   266,   290,   291,
+     292,     4,     5,     6,     7,     9,    11,    20,    31,    34,
       46,    47,    54,    63,    64,    73,    80,    90,   101,   110,
      120,   124,   126,   149,   200,   217,   218,   219,   221,   226,
-     253,   255,   259,   263,   273,   277,   323,   334,   335,   336,
-     337,   338,   339,   340,   341,   342,   343,   347,   348,   349,
-     350,   351,   352,   353,   355,   357,   358,   359,   360,   368,
-     369,   374,   375,    87,    87,   263,   265,   125,   289,    87,
+     253,   255,   260,   264,   274,   278,   324,   335,   336,   337,
+     338,   339,   340,   341,   342,   343,   344,   348,   349,   350,
+     351,   352,   353,   354,   356,   358,   359,   360,   361,   369,
+     370,   375,   376,    87,    87,   264,   266,   125,   290,    87,
       87,   124,   138,   125,   137,   141,   141,    33,    95,   114,
-     305,    24,    25,   165,   166,   200,   161,   263,   121,   166,
-       6,     7,     9,    11,    24,    25,    34,    40,    47,    76,
-      89,   120,   124,   141,   149,   150,   157,   202,   253,   256,
-     257,   263,   266,   267,   268,   269,   273,   277,   315,   323,
-     374,   375,   124,   270,   263,   263,   166,   372,   263,    22,
-     372,   121,    34,    76,   149,   150,   202,   266,   267,   372,
-     375,     4,   253,   308,   309,   310,   311,   312,   373,   284,
-     285,   373,   125,   137,   263,   132,   370,   125,   137,   126,
-     138,   125,   137,    87,   370,    50,    89,    50,    89,   125,
-     137,    58,   344,    40,   263,    40,   333,   267,    13,    44,
-      45,   122,   201,   337,   336,   124,   124,   370,   137,   112,
-     145,   345,    77,   146,   346,   344,   263,   123,   130,   138,
-     263,   265,   263,   265,   125,   263,   265,   263,   265,    24,
-      25,    28,   163,   164,   167,   168,   171,   173,   174,   176,
-     178,   149,   376,   210,   249,     4,   253,   304,   138,   267,
-     267,   267,   271,   126,   125,   137,   137,   141,   145,   137,
-     145,   138,   138,   336,   267,   138,   138,   253,   308,   125,
-     308,   126,   125,   137,   126,   122,   265,   253,   263,   277,
-     371,   122,   281,   253,   277,   276,   263,   137,    34,   149,
-     349,   349,   122,   291,   347,   124,    54,   267,   333,   361,
-     124,   362,   137,   125,   137,   127,   144,   222,   223,   256,
-     127,   122,   340,   342,    79,   130,   349,   354,   356,   374,
-     157,   263,   165,   263,   157,   125,   137,    24,    50,    89,
-     169,   129,   165,   125,   267,     4,   256,   267,   267,   267,
-     267,   267,    24,    25,   125,   125,   311,   285,     4,   253,
-     137,   141,   370,   127,   127,   122,   290,   370,   122,   157,
-     197,   212,   220,   263,   375,    40,   122,   363,   364,   373,
-     337,   122,   138,   225,   373,   125,   137,   125,   137,   356,
-      50,    89,   177,    89,   113,   170,   170,   170,    50,    89,
-     179,   120,   180,   164,   263,   127,   127,   127,   127,   298,
-     267,   137,   137,   137,   141,   125,   138,   267,   125,   137,
-     125,   137,   333,   365,   366,   137,   138,   224,   138,   223,
-     337,   124,   187,   189,   190,   191,   193,    50,    89,   175,
-      50,    89,   172,   172,   104,   137,   280,   122,   290,   124,
-     189,   267,   149,   363,   363,    29,    89,    93,   367,   337,
-     224,   225,   373,    24,    25,    29,    30,    31,    33,    34,
-      35,    36,    37,    38,    39,    40,    41,    42,    43,    44,
-      45,    46,    47,    48,    49,    50,    51,    52,    53,    54,
-      55,    56,    57,    58,    59,    60,    61,    62,    63,    64,
-      69,    70,    71,    72,    73,    74,    75,    76,    77,    79,
-      80,    81,    82,    84,    86,    87,    88,    89,    90,    91,
-      92,    93,    95,    96,    97,    98,    99,   100,   101,   102,
-     103,   104,   106,   108,   109,   110,   111,   112,   113,   114,
-     120,   137,   149,   165,   186,   192,   194,   195,   196,   263,
-     267,   377,   270,   349,   124,   156,   137,   137,   267,   125,
-     196,   137,   125,   195,    30,    34,    37,    38,    39,    40,
-      41,    42,    47,    48,    49,    52,    53,    57,    62,    63,
-      74,    76,    84,    86,    88,    89,    96,    97,    98,    99,
-     100,   108,   109,   110,   111,   120,   128,   149,   181,   182,
-     183,   184,   185,   186,   122,   148,   181,   125,   182,   165,
-     186,   137,   125,   129,   290,   137
+     306,    24,    25,   165,   166,   200,   161,   264,   121,   166,
+       6,     7,     9,    11,   124,   157,   253,   256,   257,   258,
+     264,   274,   278,   376,   124,   271,   264,   264,   166,   373,
+     264,    22,   373,   121,     6,     7,     9,    11,    24,    25,
+      34,    40,    47,    76,    89,   120,   124,   141,   149,   150,
+     202,   253,   267,   268,   269,   270,   274,   278,   316,   324,
+     373,   375,   376,     4,   253,   309,   310,   311,   312,   313,
+     374,   285,   286,   374,   125,   137,   264,   132,   371,   125,
+     137,   126,   138,   125,   137,    87,   371,    50,    89,    50,
+      89,   125,   137,    58,   345,    40,   264,    40,   334,   268,
+      13,    44,    45,   122,   201,   338,   337,   124,   124,   371,
+     137,   112,   145,   346,    77,   146,   347,   345,   264,   123,
+     130,   138,   264,   266,   264,   266,   125,   264,   266,   264,
+     266,    24,    25,    28,   163,   164,   167,   168,   171,   173,
+     174,   176,   178,   149,   377,   210,   249,     4,   253,   305,
+     138,   268,   268,   272,   125,   137,   138,   337,   268,   268,
+     272,   126,   137,   141,   145,   137,   145,   138,   138,   138,
+     253,   309,   125,   309,   126,   125,   137,   126,   122,   266,
+     253,   264,   278,   372,   122,   282,   253,   278,   277,   264,
+     137,    34,   149,   350,   350,   122,   292,   348,   124,    54,
+     268,   334,   362,   124,   363,   137,   125,   137,   127,   144,
+     222,   223,   256,   127,   122,   341,   343,    79,   130,   350,
+     355,   357,   375,   157,   264,   165,   264,   157,   125,   137,
+      24,    50,    89,   169,   129,   165,   125,   268,   256,   125,
+     125,     4,   268,   268,   268,   268,   268,    24,    25,   125,
+     312,   286,     4,   253,   137,   141,   371,   127,   127,   122,
+     291,   371,   122,   157,   197,   212,   220,   264,   376,    40,
+     122,   364,   365,   374,   338,   122,   138,   225,   374,   125,
+     137,   125,   137,   357,    50,    89,   177,    89,   113,   170,
+     170,   170,    50,    89,   179,   120,   180,   164,   264,   127,
+     127,   127,   127,   299,   268,   137,   137,   137,   141,   125,
+     138,   268,   125,   137,   125,   137,   334,   366,   367,   137,
+     138,   224,   138,   223,   338,   124,   187,   189,   190,   191,
+     193,    50,    89,   175,    50,    89,   172,   172,   104,   137,
+     281,   122,   291,   124,   189,   268,   149,   364,   364,    29,
+      89,    93,   368,   338,   224,   225,   374,    24,    25,    29,
+      30,    31,    33,    34,    35,    36,    37,    38,    39,    40,
+      41,    42,    43,    44,    45,    46,    47,    48,    49,    50,
+      51,    52,    53,    54,    55,    56,    57,    58,    59,    60,
+      61,    62,    63,    64,    69,    70,    71,    72,    73,    74,
+      75,    76,    77,    79,    80,    81,    82,    84,    86,    87,
+      88,    89,    90,    91,    92,    93,    95,    96,    97,    98,
+      99,   100,   101,   102,   103,   104,   106,   108,   109,   110,
+     111,   112,   113,   114,   120,   137,   149,   150,   165,   186,
+     192,   194,   195,   196,   202,   264,   268,   378,   271,   350,
+     124,   156,   137,   137,   268,   125,    34,    76,   196,   137,
+     125,   195,    30,    34,    37,    38,    39,    40,    41,    42,
+      47,    48,    49,    52,    53,    57,    62,    63,    74,    76,
+      84,    86,    88,    89,    96,    97,    98,    99,   100,   108,
+     109,   110,   111,   120,   128,   149,   181,   182,   183,   184,
+     185,   186,   122,   148,   181,   125,   182,   165,   186,   137,
+     125,   129,   291,   137
   };
 
   const short
@@ -11644,44 +11649,45 @@ namespace yy {
      241,   241,   242,   242,   243,   243,   244,   244,   245,   246,
      246,   247,   247,   248,   249,   249,   249,   250,   250,   251,
      251,   251,   251,   251,   251,   252,   252,   252,   253,   253,
-     254,   255,   256,   256,   257,   257,   257,   258,   259,   260,
-     261,   262,   263,   263,   263,   263,   263,   264,   264,   264,
-     264,   264,   264,   264,   264,   264,   264,   264,   264,   264,
-     264,   264,   264,   264,   264,   264,   264,   264,   264,   264,
-     264,   264,   264,   264,   264,   264,   264,   264,   265,   266,
-     266,   266,   266,   266,   266,   266,   266,   266,   266,   266,
-     266,   266,   266,   266,   266,   266,   266,   266,   266,   266,
-     266,   266,   266,   266,   267,   267,   267,   268,   268,   269,
-     269,   270,   271,   271,   272,   273,   273,   274,   274,   275,
-     275,   276,   276,   277,   277,   278,   279,   279,   279,   279,
-     280,   280,   281,   281,   282,   283,   283,   284,   284,   285,
-     285,   286,   287,   288,   288,   289,   289,   289,   289,   289,
-     289,   289,   289,   289,   290,   290,   291,   291,   291,   291,
-     291,   291,   291,   292,   292,   293,   293,   294,   294,   295,
-     296,   297,   297,   297,   298,   298,   299,   300,   301,   301,
-     301,   302,   303,   303,   304,   304,   305,   305,   305,   305,
-     306,   307,   307,   308,   308,   309,   309,   309,   310,   311,
-     311,   312,   313,   314,   315,   316,   317,   317,   318,   318,
-     319,   320,   321,   322,   323,   324,   325,   326,   327,   328,
-     328,   329,   329,   329,   329,   329,   329,   329,   329,   329,
-     329,   329,   329,   329,   330,   331,   331,   332,   332,   332,
-     332,   332,   332,   332,   332,   333,   334,   334,   335,   336,
-     336,   336,   337,   337,   338,   338,   339,   340,   340,   341,
-     342,   342,   343,   344,   345,   345,   346,   346,   347,   347,
-     348,   348,   348,   348,   348,   348,   348,   348,   348,   349,
-     349,   349,   349,   349,   349,   349,   349,   349,   349,   350,
-     351,   352,   353,   353,   354,   354,   355,   355,   356,   356,
-     357,   358,   359,   360,   360,   361,   362,   362,   362,   362,
-     363,   363,   364,   365,   366,   366,   367,   367,   367,   367,
-     368,   369,   370,   370,   371,   371,   371,   372,   373,   374,
-     375,   376,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377
+     254,   255,   256,   256,   257,   257,   257,   258,   258,   258,
+     258,   258,   258,   258,   258,   259,   260,   261,   262,   263,
+     264,   264,   264,   264,   264,   265,   265,   265,   265,   265,
+     265,   265,   265,   265,   265,   265,   265,   265,   265,   265,
+     265,   265,   265,   265,   265,   265,   265,   265,   265,   265,
+     265,   265,   265,   265,   265,   265,   266,   267,   267,   267,
+     267,   267,   267,   267,   267,   267,   267,   267,   267,   267,
+     267,   267,   267,   267,   267,   267,   267,   267,   267,   267,
+     267,   267,   268,   268,   268,   269,   269,   270,   270,   271,
+     272,   272,   273,   274,   274,   275,   275,   276,   276,   277,
+     277,   278,   278,   279,   280,   280,   280,   280,   281,   281,
+     282,   282,   283,   284,   284,   285,   285,   286,   286,   287,
+     288,   289,   289,   290,   290,   290,   290,   290,   290,   290,
+     290,   290,   291,   291,   292,   292,   292,   292,   292,   292,
+     292,   293,   293,   294,   294,   295,   295,   296,   297,   298,
+     298,   298,   299,   299,   300,   301,   302,   302,   302,   303,
+     304,   304,   305,   305,   306,   306,   306,   306,   307,   308,
+     308,   309,   309,   310,   310,   310,   311,   312,   312,   313,
+     314,   315,   316,   317,   318,   318,   319,   319,   320,   321,
+     322,   323,   324,   325,   326,   327,   328,   329,   329,   330,
+     330,   330,   330,   330,   330,   330,   330,   330,   330,   330,
+     330,   330,   331,   332,   332,   333,   333,   333,   333,   333,
+     333,   333,   333,   334,   335,   335,   336,   337,   337,   337,
+     338,   338,   339,   339,   340,   341,   341,   342,   343,   343,
+     344,   345,   346,   346,   347,   347,   348,   348,   349,   349,
+     349,   349,   349,   349,   349,   349,   349,   350,   350,   350,
+     350,   350,   350,   350,   350,   350,   350,   351,   352,   353,
+     354,   354,   355,   355,   356,   356,   357,   357,   358,   359,
+     360,   361,   361,   362,   363,   363,   363,   363,   364,   364,
+     365,   366,   367,   367,   368,   368,   368,   368,   369,   370,
+     371,   371,   372,   372,   372,   373,   374,   375,   376,   377,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378
   };
 
   const signed char
@@ -11707,36 +11713,37 @@ namespace yy {
        1,     0,     3,     0,     1,     0,     1,     2,     3,     1,
        2,     1,     3,     1,     1,     3,     1,     1,     2,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       4,     4,     1,     3,     1,     1,     1,     3,     3,     3,
-       4,     4,     1,     1,     1,     1,     1,     1,     1,     1,
+       4,     4,     1,     3,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     3,     3,     3,     3,     4,     4,
+       1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     2,     1,     1,     1,
+       1,     1,     1,     1,     2,     1,     4,     1,     1,     1,
+       1,     3,     3,     3,     1,     1,     3,     1,     1,     1,
+       1,     1,     1,     1,     1,     3,     3,     3,     3,     3,
+       1,     2,     1,     1,     1,     1,     4,     1,     3,     4,
+       4,     1,     1,     4,     1,     4,     6,     2,     1,     3,
+       1,     1,     1,     2,     5,     1,     3,     4,     4,     2,
+       1,     3,     4,     1,     4,     6,     8,    10,     4,     6,
+       2,     4,     1,     3,     1,     2,     3,     1,     2,     3,
+       3,     3,     3,     3,     4,     3,     3,     4,     1,     1,
+       3,     5,     1,     3,     3,     1,     2,     3,     3,     5,
+       2,     0,     1,     1,     1,     1,     1,     0,     2,     3,
+       4,     1,     2,     1,     1,     1,     1,     1,     1,     4,
+       1,     1,     4,     2,     3,     0,     1,     1,     1,     2,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     2,     1,
-       1,     1,     1,     1,     1,     1,     2,     1,     4,     1,
-       1,     1,     1,     3,     3,     3,     1,     1,     3,     1,
-       1,     1,     1,     1,     1,     1,     1,     3,     3,     3,
-       3,     3,     1,     2,     1,     1,     1,     1,     4,     1,
-       3,     4,     4,     1,     1,     4,     1,     4,     6,     2,
-       1,     3,     1,     1,     1,     2,     5,     1,     3,     4,
-       4,     2,     1,     3,     4,     1,     4,     6,     8,    10,
-       4,     6,     2,     4,     1,     3,     1,     2,     3,     1,
-       2,     3,     3,     3,     3,     3,     4,     3,     3,     4,
-       1,     1,     3,     5,     1,     3,     3,     1,     2,     3,
-       3,     5,     2,     0,     1,     1,     1,     1,     1,     0,
-       2,     3,     4,     1,     2,     1,     1,     1,     1,     1,
-       1,     4,     1,     1,     4,     2,     3,     0,     1,     1,
-       1,     2,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     2,     2,     1,     4,     4,     4,
-       4,     4,     4,     4,     4,     4,     1,     1,     1,     1,
-       3,     5,     1,     2,     1,     3,     1,     1,     3,     1,
-       1,     2,     1,     2,     1,     1,     1,     1,     1,     3,
+       1,     1,     2,     2,     1,     4,     4,     4,     4,     4,
+       4,     4,     4,     4,     1,     1,     1,     1,     3,     5,
+       1,     2,     1,     3,     1,     1,     3,     1,     1,     2,
+       1,     2,     1,     1,     1,     1,     1,     3,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     1,     2,
-       1,     3,     1,     2,     1,     2,     1,     1,     1,     1,
-       2,     1,     2,     3,     3,     1,     0,     3,     5,     3,
-       1,     3,     2,     2,     1,     0,     1,     1,     1,     0,
-       2,     2,     2,     0,     1,     1,     3,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     2,     1,     3,
+       1,     2,     1,     2,     1,     1,     1,     1,     2,     1,
+       2,     3,     3,     1,     0,     3,     5,     3,     1,     3,
+       2,     2,     1,     0,     1,     1,     1,     0,     2,     2,
+       2,     0,     1,     1,     3,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
@@ -11744,7 +11751,7 @@ namespace yy {
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     1
+       1,     1,     1,     1,     1,     1,     1
   };
 
 
@@ -11817,17 +11824,17 @@ namespace yy {
   "SymbolsFromModuleList", "SymbolsFromModule", "GlobalModuleReference",
   "SymbolList", "Symbol", "Reference", "AssignmentList", "Assignment",
   "DefinedType", "DefinedValue", "ParameterizedType", "ParameterizedValue",
-  "ActualParameterList", "ActualParameter", "ExternalTypeReference",
-  "ExternalValueReference", "TypeAssignment", "ValueAssignment",
-  "ValueSetTypeAssignment", "Type", "BuiltinType", "NamedType",
-  "ValueWithoutTypeIdentifier", "Value", "ValueCommaListChoice",
-  "ValueChoice", "ValueSet", "SequenceOfValues", "BooleanType",
-  "BooleanValue", "IntegerType", "NamedNumberList", "NamedNumber",
-  "SignedNumber", "EnumeratedType", "Enumerations", "Enumeration",
-  "EnumerationItem", "RealType", "BitStringType", "NamedBitList",
-  "NamedBit", "OctetStringType", "NullType", "SequenceType",
-  "ComponentTypeLists", "ComponentTypeList", "ComponentType",
-  "SequenceOfType", "SetType", "SetOfType", "ChoiceType",
+  "ActualParameterList", "ActualParameter", "ActualValue",
+  "ExternalTypeReference", "ExternalValueReference", "TypeAssignment",
+  "ValueAssignment", "ValueSetTypeAssignment", "Type", "BuiltinType",
+  "NamedType", "ValueWithoutTypeIdentifier", "Value",
+  "ValueCommaListChoice", "ValueChoice", "ValueSet", "SequenceOfValues",
+  "BooleanType", "BooleanValue", "IntegerType", "NamedNumberList",
+  "NamedNumber", "SignedNumber", "EnumeratedType", "Enumerations",
+  "Enumeration", "EnumerationItem", "RealType", "BitStringType",
+  "NamedBitList", "NamedBit", "OctetStringType", "NullType",
+  "SequenceType", "ComponentTypeLists", "ComponentTypeList",
+  "ComponentType", "SequenceOfType", "SetType", "SetOfType", "ChoiceType",
   "AlternativeTypeLists", "RootAlternativeTypeList", "AlternativeTypeList",
   "SelectionType", "PrefixedType", "TaggedType", "Tag",
   "EncodingReference", "ClassNumber", "Class", "ObjectIdentifierType",
@@ -11870,53 +11877,54 @@ namespace yy {
      530,   533,   534,   538,   539,   542,   545,   549,   552,   553,
      554,   555,   556,   565,   567,   574,   576,   578,   580,   587,
      591,   595,   599,   611,   615,   617,   621,   623,   627,   629,
-     633,   635,   651,   663,   672,   680,   681,   685,   686,   689,
-     690,   691,   694,   699,   700,   701,   702,   703,   704,   705,
-     708,   710,   714,   715,   718,   719,   722,   723,   726,   727,
-     730,   731,   732,   743,   751,   758,   759,   760,   763,   766,
-     770,   771,   775,   776,   777,   780,   783,   787,   788,   791,
-     793,   795,   797,   801,   802,   805,   807,   811,   812,   813,
-     816,   817,   820,   822,   825,   827,   830,   832,   836,   852,
-     854,   860,   862,   866,   870,   872,   874,   883,   885,   889,
-     891,   893,   895,   898,   900,   904,   906,   908,   914,   916,
-     919,   923,   926,   928,   932,   934,   937,   947,   951,   976,
-     980,   984,   988,   990,   992,   994,   996,  1001,  1002,  1003,
-    1004,  1005,  1006,  1007,  1008,  1009,  1010,  1011,  1012,  1013,
-    1014,  1015,  1016,  1017,  1018,  1019,  1020,  1021,  1022,  1023,
-    1024,  1025,  1026,  1027,  1028,  1029,  1030,  1031,  1034,  1038,
-    1040,  1042,  1044,  1046,  1048,  1050,  1052,  1054,  1056,  1058,
-    1059,  1061,  1063,  1065,  1069,  1070,  1071,  1072,  1073,  1075,
-    1077,  1079,  1081,  1083,  1088,  1090,  1092,  1095,  1096,  1099,
-    1100,  1103,  1106,  1108,  1116,  1119,  1121,  1125,  1127,  1131,
-    1133,  1137,  1139,  1143,  1145,  1149,  1153,  1156,  1159,  1163,
-    1166,  1168,  1172,  1174,  1182,  1185,  1187,  1191,  1192,  1195,
-    1196,  1210,  1213,  1216,  1218,  1222,  1224,  1227,  1231,  1235,
-    1240,  1243,  1246,  1249,  1254,  1256,  1260,  1263,  1266,  1269,
-    1271,  1273,  1275,  1287,  1289,  1293,  1295,  1299,  1301,  1305,
-    1309,  1313,  1315,  1317,  1321,  1323,  1330,  1333,  1337,  1339,
-    1341,  1345,  1349,  1350,  1353,  1359,  1363,  1365,  1367,  1369,
-    1379,  1382,  1384,  1388,  1390,  1394,  1396,  1398,  1402,  1406,
-    1408,  1411,  1415,  1427,  1430,  1436,  1439,  1440,  1443,  1444,
-    1447,  1453,  1460,  1466,  1469,  1472,  1475,  1478,  1481,  1484,
-    1486,  1490,  1492,  1494,  1496,  1498,  1500,  1502,  1504,  1506,
-    1508,  1510,  1512,  1514,  1518,  1522,  1524,  1528,  1530,  1532,
-    1534,  1536,  1538,  1540,  1542,  1546,  1550,  1551,  1554,  1557,
-    1558,  1559,  1562,  1563,  1566,  1567,  1570,  1573,  1574,  1577,
-    1580,  1581,  1584,  1587,  1590,  1591,  1594,  1595,  1598,  1600,
-    1603,  1604,  1605,  1606,  1607,  1608,  1609,  1610,  1611,  1617,
-    1620,  1622,  1624,  1626,  1628,  1630,  1632,  1634,  1636,  1640,
-    1643,  1646,  1649,  1650,  1653,  1654,  1657,  1658,  1661,  1662,
-    1665,  1668,  1671,  1674,  1675,  1678,  1680,  1681,  1682,  1683,
-    1686,  1687,  1690,  1693,  1696,  1697,  1700,  1701,  1702,  1703,
-    1706,  1709,  1712,  1713,  1716,  1717,  1718,  1721,  1725,  1729,
-    1733,  1737,  1741,  1742,  1743,  1744,  1745,  1746,  1747,  1748,
-    1749,  1750,  1751,  1752,  1753,  1754,  1755,  1756,  1757,  1758,
-    1759,  1760,  1761,  1762,  1763,  1764,  1765,  1766,  1767,  1768,
-    1769,  1770,  1771,  1772,  1773,  1774,  1775,  1776,  1777,  1778,
-    1779,  1780,  1781,  1782,  1783,  1784,  1785,  1786,  1787,  1788,
-    1789,  1790,  1791,  1792,  1793,  1794,  1795,  1796,  1797,  1798,
-    1799,  1800,  1801,  1802,  1803,  1804,  1805,  1806,  1807,  1808,
-    1809,  1810,  1811,  1812,  1813,  1814,  1815,  1816,  1817
+     633,   635,   651,   663,   672,   680,   682,   686,   687,   690,
+     691,   692,   695,   700,   701,   702,   703,   704,   705,   706,
+     709,   711,   715,   716,   719,   720,   723,   724,   727,   728,
+     731,   732,   733,   744,   752,   759,   760,   761,   764,   767,
+     771,   772,   776,   777,   778,   781,   784,   788,   789,   792,
+     794,   796,   798,   802,   803,   806,   808,   812,   813,   814,
+     817,   818,   821,   823,   826,   828,   831,   833,   837,   853,
+     855,   861,   863,   867,   871,   873,   875,   884,   886,   890,
+     892,   894,   896,   899,   901,   905,   907,   909,   915,   917,
+     920,   924,   927,   929,   933,   935,   938,   944,   945,   946,
+     947,   948,   949,   950,   951,   959,   963,   988,   992,   996,
+    1000,  1002,  1004,  1006,  1008,  1013,  1014,  1015,  1016,  1017,
+    1018,  1019,  1020,  1021,  1022,  1023,  1024,  1025,  1026,  1027,
+    1028,  1029,  1030,  1031,  1032,  1033,  1034,  1035,  1036,  1037,
+    1038,  1039,  1040,  1041,  1042,  1043,  1046,  1050,  1052,  1054,
+    1056,  1058,  1060,  1062,  1064,  1066,  1068,  1070,  1071,  1073,
+    1075,  1077,  1081,  1082,  1083,  1084,  1085,  1087,  1089,  1091,
+    1093,  1095,  1100,  1102,  1104,  1107,  1108,  1111,  1112,  1115,
+    1118,  1120,  1128,  1131,  1133,  1137,  1139,  1143,  1145,  1149,
+    1151,  1155,  1157,  1161,  1165,  1168,  1171,  1175,  1178,  1180,
+    1184,  1186,  1194,  1197,  1199,  1203,  1204,  1207,  1208,  1222,
+    1225,  1228,  1230,  1234,  1236,  1239,  1244,  1249,  1255,  1259,
+    1263,  1266,  1271,  1273,  1277,  1280,  1283,  1286,  1288,  1290,
+    1292,  1304,  1306,  1310,  1312,  1316,  1318,  1322,  1326,  1330,
+    1332,  1334,  1338,  1340,  1347,  1350,  1354,  1356,  1358,  1362,
+    1366,  1367,  1370,  1376,  1380,  1382,  1384,  1386,  1396,  1399,
+    1401,  1405,  1407,  1411,  1413,  1415,  1419,  1423,  1425,  1428,
+    1432,  1444,  1447,  1453,  1456,  1457,  1460,  1461,  1464,  1470,
+    1477,  1483,  1486,  1489,  1492,  1495,  1498,  1501,  1503,  1507,
+    1509,  1511,  1513,  1515,  1517,  1519,  1521,  1523,  1525,  1527,
+    1529,  1531,  1535,  1539,  1541,  1545,  1547,  1549,  1551,  1553,
+    1555,  1557,  1559,  1563,  1567,  1568,  1571,  1574,  1575,  1576,
+    1579,  1580,  1583,  1584,  1587,  1590,  1591,  1594,  1597,  1598,
+    1601,  1604,  1607,  1608,  1611,  1612,  1615,  1617,  1620,  1621,
+    1622,  1623,  1624,  1625,  1626,  1627,  1628,  1634,  1637,  1639,
+    1641,  1643,  1645,  1647,  1649,  1651,  1653,  1657,  1660,  1663,
+    1666,  1667,  1670,  1671,  1674,  1675,  1678,  1679,  1682,  1685,
+    1688,  1691,  1692,  1695,  1697,  1698,  1699,  1700,  1703,  1704,
+    1707,  1710,  1713,  1714,  1717,  1718,  1719,  1720,  1723,  1726,
+    1729,  1730,  1733,  1734,  1735,  1738,  1742,  1746,  1750,  1754,
+    1758,  1759,  1760,  1761,  1762,  1763,  1764,  1765,  1766,  1767,
+    1768,  1769,  1770,  1771,  1772,  1773,  1774,  1775,  1776,  1777,
+    1778,  1779,  1780,  1781,  1782,  1783,  1784,  1785,  1786,  1787,
+    1788,  1789,  1790,  1791,  1792,  1793,  1794,  1795,  1796,  1797,
+    1798,  1799,  1800,  1801,  1802,  1803,  1804,  1805,  1806,  1807,
+    1808,  1809,  1810,  1811,  1812,  1813,  1814,  1815,  1816,  1817,
+    1818,  1819,  1820,  1821,  1822,  1823,  1824,  1825,  1826,  1827,
+    1828,  1829,  1830,  1831,  1832,  1833,  1834
   };
 
   void
@@ -11961,7 +11969,7 @@ namespace yy {
         context_.location.step();
         // Lexer
 
-#line 11965 "asn_compiler.hpp"
+#line 11973 "asn_compiler.hpp"
 {
 	char yych;
 	unsigned int yyaccept = 0;
@@ -12061,25 +12069,25 @@ namespace yy {
 	}
 yy1:
 	++context_.cursor;
-#line 1953 "asn_compiler.yacc"
+#line 1970 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
-#line 12067 "asn_compiler.hpp"
+#line 12075 "asn_compiler.hpp"
 yy2:
 	++context_.cursor;
 yy3:
-#line 1979 "asn_compiler.yacc"
+#line 1996 "asn_compiler.yacc"
 	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
-#line 12073 "asn_compiler.hpp"
+#line 12081 "asn_compiler.hpp"
 yy4:
 	++context_.cursor;
-#line 1957 "asn_compiler.yacc"
+#line 1974 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
-#line 12078 "asn_compiler.hpp"
+#line 12086 "asn_compiler.hpp"
 yy5:
 	++context_.cursor;
-#line 1956 "asn_compiler.yacc"
+#line 1973 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-#line 12083 "asn_compiler.hpp"
+#line 12091 "asn_compiler.hpp"
 yy6:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12088,9 +12096,9 @@ yy6:
 	}
 yy7:
 	++context_.cursor;
-#line 1975 "asn_compiler.yacc"
+#line 1992 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCLAMATION_MARK (context_.location); }
-#line 12094 "asn_compiler.hpp"
+#line 12102 "asn_compiler.hpp"
 yy8:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12185,19 +12193,19 @@ yy10:
 	}
 yy11:
 	++context_.cursor;
-#line 1965 "asn_compiler.yacc"
+#line 1982 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-#line 12191 "asn_compiler.hpp"
+#line 12199 "asn_compiler.hpp"
 yy12:
 	++context_.cursor;
-#line 1966 "asn_compiler.yacc"
+#line 1983 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-#line 12196 "asn_compiler.hpp"
+#line 12204 "asn_compiler.hpp"
 yy13:
 	++context_.cursor;
-#line 1971 "asn_compiler.yacc"
+#line 1988 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-#line 12201 "asn_compiler.hpp"
+#line 12209 "asn_compiler.hpp"
 yy14:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12215,9 +12223,9 @@ yy14:
 		default: goto yy15;
 	}
 yy15:
-#line 1972 "asn_compiler.yacc"
+#line 1989 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
-#line 12221 "asn_compiler.hpp"
+#line 12229 "asn_compiler.hpp"
 yy16:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12225,9 +12233,9 @@ yy16:
 		default: goto yy17;
 	}
 yy17:
-#line 1973 "asn_compiler.yacc"
+#line 1990 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
-#line 12231 "asn_compiler.hpp"
+#line 12239 "asn_compiler.hpp"
 yy18:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12253,9 +12261,9 @@ yy19:
 		default: goto yy20;
 	}
 yy20:
-#line 1939 "asn_compiler.yacc"
+#line 1956 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 12259 "asn_compiler.hpp"
+#line 12267 "asn_compiler.hpp"
 yy21:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12264,24 +12272,24 @@ yy21:
 		default: goto yy22;
 	}
 yy22:
-#line 1969 "asn_compiler.yacc"
+#line 1986 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
-#line 12270 "asn_compiler.hpp"
+#line 12278 "asn_compiler.hpp"
 yy23:
 	++context_.cursor;
-#line 1970 "asn_compiler.yacc"
+#line 1987 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-#line 12275 "asn_compiler.hpp"
+#line 12283 "asn_compiler.hpp"
 yy24:
 	++context_.cursor;
-#line 1976 "asn_compiler.yacc"
+#line 1993 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-#line 12280 "asn_compiler.hpp"
+#line 12288 "asn_compiler.hpp"
 yy25:
 	++context_.cursor;
-#line 1978 "asn_compiler.yacc"
+#line 1995 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-#line 12285 "asn_compiler.hpp"
+#line 12293 "asn_compiler.hpp"
 yy26:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12294,9 +12302,9 @@ yy26:
 		default: goto yy35;
 	}
 yy27:
-#line 1947 "asn_compiler.yacc"
+#line 1964 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12300 "asn_compiler.hpp"
+#line 12308 "asn_compiler.hpp"
 yy28:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12527,19 +12535,19 @@ yy46:
 	}
 yy47:
 	++context_.cursor;
-#line 1967 "asn_compiler.yacc"
+#line 1984 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-#line 12533 "asn_compiler.hpp"
+#line 12541 "asn_compiler.hpp"
 yy48:
 	++context_.cursor;
-#line 1968 "asn_compiler.yacc"
+#line 1985 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-#line 12538 "asn_compiler.hpp"
+#line 12546 "asn_compiler.hpp"
 yy49:
 	++context_.cursor;
-#line 1977 "asn_compiler.yacc"
+#line 1994 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-#line 12543 "asn_compiler.hpp"
+#line 12551 "asn_compiler.hpp"
 yy50:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12611,24 +12619,24 @@ yy50:
 		default: goto yy51;
 	}
 yy51:
-#line 1948 "asn_compiler.yacc"
+#line 1965 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12617 "asn_compiler.hpp"
+#line 12625 "asn_compiler.hpp"
 yy52:
 	++context_.cursor;
-#line 1963 "asn_compiler.yacc"
+#line 1980 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-#line 12622 "asn_compiler.hpp"
+#line 12630 "asn_compiler.hpp"
 yy53:
 	++context_.cursor;
-#line 1974 "asn_compiler.yacc"
+#line 1991 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-#line 12627 "asn_compiler.hpp"
+#line 12635 "asn_compiler.hpp"
 yy54:
 	++context_.cursor;
-#line 1964 "asn_compiler.yacc"
+#line 1981 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-#line 12632 "asn_compiler.hpp"
+#line 12640 "asn_compiler.hpp"
 yy55:
 	yych = *++context_.cursor;
 yy56:
@@ -12751,9 +12759,9 @@ yy58:
 		default: goto yy59;
 	}
 yy59:
-#line 1942 "asn_compiler.yacc"
+#line 1959 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-#line 12757 "asn_compiler.hpp"
+#line 12765 "asn_compiler.hpp"
 yy60:
 	++context_.cursor;
 	goto yy59;
@@ -12837,9 +12845,9 @@ yy62:
 		default: goto yy63;
 	}
 yy63:
-#line 1949 "asn_compiler.yacc"
+#line 1966 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12843 "asn_compiler.hpp"
+#line 12851 "asn_compiler.hpp"
 yy64:
 	yyaccept = 7;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12911,9 +12919,9 @@ yy64:
 		default: goto yy65;
 	}
 yy65:
-#line 1950 "asn_compiler.yacc"
+#line 1967 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12917 "asn_compiler.hpp"
+#line 12925 "asn_compiler.hpp"
 yy66:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12993,9 +13001,9 @@ yy69:
 		default: goto yy69;
 	}
 yy70:
-#line 1933 "asn_compiler.yacc"
+#line 1950 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 12999 "asn_compiler.hpp"
+#line 13007 "asn_compiler.hpp"
 yy71:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13012,9 +13020,9 @@ yy71:
 		default: goto yy72;
 	}
 yy72:
-#line 1940 "asn_compiler.yacc"
+#line 1957 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 13018 "asn_compiler.hpp"
+#line 13026 "asn_compiler.hpp"
 yy73:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13022,9 +13030,9 @@ yy73:
 		default: goto yy74;
 	}
 yy74:
-#line 1962 "asn_compiler.yacc"
+#line 1979 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-#line 13028 "asn_compiler.hpp"
+#line 13036 "asn_compiler.hpp"
 yy75:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13255,9 +13263,9 @@ yy88:
 		default: goto yy89;
 	}
 yy89:
-#line 1846 "asn_compiler.yacc"
+#line 1863 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-#line 13261 "asn_compiler.hpp"
+#line 13269 "asn_compiler.hpp"
 yy90:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -13512,9 +13520,9 @@ yy115:
 		default: goto yy116;
 	}
 yy116:
-#line 1894 "asn_compiler.yacc"
+#line 1911 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-#line 13518 "asn_compiler.hpp"
+#line 13526 "asn_compiler.hpp"
 yy117:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -13914,14 +13922,14 @@ yy145:
 	}
 yy146:
 	++context_.cursor;
-#line 1944 "asn_compiler.yacc"
+#line 1961 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13920 "asn_compiler.hpp"
+#line 13928 "asn_compiler.hpp"
 yy147:
 	++context_.cursor;
-#line 1946 "asn_compiler.yacc"
+#line 1963 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13925 "asn_compiler.hpp"
+#line 13933 "asn_compiler.hpp"
 yy148:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13939,9 +13947,9 @@ yy149:
 	}
 yy150:
 	++context_.cursor;
-#line 1961 "asn_compiler.yacc"
+#line 1978 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-#line 13945 "asn_compiler.hpp"
+#line 13953 "asn_compiler.hpp"
 yy151:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13966,14 +13974,14 @@ yy152:
 		default: goto yy153;
 	}
 yy153:
-#line 1938 "asn_compiler.yacc"
+#line 1955 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-#line 13972 "asn_compiler.hpp"
+#line 13980 "asn_compiler.hpp"
 yy154:
 	++context_.cursor;
-#line 1960 "asn_compiler.yacc"
+#line 1977 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-#line 13977 "asn_compiler.hpp"
+#line 13985 "asn_compiler.hpp"
 yy155:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14053,9 +14061,9 @@ yy156:
 		default: goto yy157;
 	}
 yy157:
-#line 1838 "asn_compiler.yacc"
+#line 1855 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-#line 14059 "asn_compiler.hpp"
+#line 14067 "asn_compiler.hpp"
 yy158:
 	yyaccept = 11;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14127,9 +14135,9 @@ yy158:
 		default: goto yy159;
 	}
 yy159:
-#line 1839 "asn_compiler.yacc"
+#line 1856 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-#line 14133 "asn_compiler.hpp"
+#line 14141 "asn_compiler.hpp"
 yy160:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14222,9 +14230,9 @@ yy163:
 		default: goto yy164;
 	}
 yy164:
-#line 1843 "asn_compiler.yacc"
+#line 1860 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-#line 14228 "asn_compiler.hpp"
+#line 14236 "asn_compiler.hpp"
 yy165:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14382,9 +14390,9 @@ yy177:
 		default: goto yy178;
 	}
 yy178:
-#line 1862 "asn_compiler.yacc"
+#line 1879 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-#line 14388 "asn_compiler.hpp"
+#line 14396 "asn_compiler.hpp"
 yy179:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14563,9 +14571,9 @@ yy194:
 		default: goto yy195;
 	}
 yy195:
-#line 1885 "asn_compiler.yacc"
+#line 1902 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-#line 14569 "asn_compiler.hpp"
+#line 14577 "asn_compiler.hpp"
 yy196:
 	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14637,9 +14645,9 @@ yy196:
 		default: goto yy197;
 	}
 yy197:
-#line 1886 "asn_compiler.yacc"
+#line 1903 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-#line 14643 "asn_compiler.hpp"
+#line 14651 "asn_compiler.hpp"
 yy198:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14774,9 +14782,9 @@ yy207:
 		default: goto yy208;
 	}
 yy208:
-#line 1898 "asn_compiler.yacc"
+#line 1915 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-#line 14780 "asn_compiler.hpp"
+#line 14788 "asn_compiler.hpp"
 yy209:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14897,9 +14905,9 @@ yy216:
 		default: goto yy217;
 	}
 yy217:
-#line 1907 "asn_compiler.yacc"
+#line 1924 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-#line 14903 "asn_compiler.hpp"
+#line 14911 "asn_compiler.hpp"
 yy218:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15016,14 +15024,14 @@ yy233:
 	}
 yy234:
 	++context_.cursor;
-#line 1931 "asn_compiler.yacc"
+#line 1948 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 15022 "asn_compiler.hpp"
+#line 15030 "asn_compiler.hpp"
 yy235:
 	++context_.cursor;
-#line 1935 "asn_compiler.yacc"
+#line 1952 "asn_compiler.yacc"
 	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
-#line 15027 "asn_compiler.hpp"
+#line 15035 "asn_compiler.hpp"
 yy236:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15186,9 +15194,9 @@ yy249:
 		default: goto yy250;
 	}
 yy250:
-#line 1854 "asn_compiler.yacc"
+#line 1871 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-#line 15192 "asn_compiler.hpp"
+#line 15200 "asn_compiler.hpp"
 yy251:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15338,9 +15346,9 @@ yy262:
 		default: goto yy263;
 	}
 yy263:
-#line 1870 "asn_compiler.yacc"
+#line 1887 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-#line 15344 "asn_compiler.hpp"
+#line 15352 "asn_compiler.hpp"
 yy264:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15559,9 +15567,9 @@ yy276:
 		default: goto yy277;
 	}
 yy277:
-#line 1889 "asn_compiler.yacc"
+#line 1906 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-#line 15565 "asn_compiler.hpp"
+#line 15573 "asn_compiler.hpp"
 yy278:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15710,9 +15718,9 @@ yy289:
 		default: goto yy290;
 	}
 yy290:
-#line 1903 "asn_compiler.yacc"
+#line 1920 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-#line 15716 "asn_compiler.hpp"
+#line 15724 "asn_compiler.hpp"
 yy291:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15805,9 +15813,9 @@ yy294:
 		default: goto yy295;
 	}
 yy295:
-#line 1909 "asn_compiler.yacc"
+#line 1926 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-#line 15811 "asn_compiler.hpp"
+#line 15819 "asn_compiler.hpp"
 yy296:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15900,9 +15908,9 @@ yy299:
 		default: goto yy300;
 	}
 yy300:
-#line 1913 "asn_compiler.yacc"
+#line 1930 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-#line 15906 "asn_compiler.hpp"
+#line 15914 "asn_compiler.hpp"
 yy301:
 	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15974,9 +15982,9 @@ yy301:
 		default: goto yy302;
 	}
 yy302:
-#line 1915 "asn_compiler.yacc"
+#line 1932 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-#line 15980 "asn_compiler.hpp"
+#line 15988 "asn_compiler.hpp"
 yy303:
 	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16048,9 +16056,9 @@ yy303:
 		default: goto yy304;
 	}
 yy304:
-#line 1917 "asn_compiler.yacc"
+#line 1934 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-#line 16054 "asn_compiler.hpp"
+#line 16062 "asn_compiler.hpp"
 yy305:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16192,9 +16200,9 @@ yy315:
 		default: goto yy316;
 	}
 yy316:
-#line 1927 "asn_compiler.yacc"
+#line 1944 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-#line 16198 "asn_compiler.hpp"
+#line 16206 "asn_compiler.hpp"
 yy317:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16294,9 +16302,9 @@ yy321:
 		default: goto yy322;
 	}
 yy322:
-#line 1842 "asn_compiler.yacc"
+#line 1859 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-#line 16300 "asn_compiler.hpp"
+#line 16308 "asn_compiler.hpp"
 yy323:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16396,9 +16404,9 @@ yy327:
 		default: goto yy328;
 	}
 yy328:
-#line 1849 "asn_compiler.yacc"
+#line 1866 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-#line 16402 "asn_compiler.hpp"
+#line 16410 "asn_compiler.hpp"
 yy329:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16637,9 +16645,9 @@ yy344:
 		default: goto yy345;
 	}
 yy345:
-#line 1869 "asn_compiler.yacc"
+#line 1886 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-#line 16643 "asn_compiler.hpp"
+#line 16651 "asn_compiler.hpp"
 yy346:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16824,9 +16832,9 @@ yy362:
 		default: goto yy363;
 	}
 yy363:
-#line 1893 "asn_compiler.yacc"
+#line 1910 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-#line 16830 "asn_compiler.hpp"
+#line 16838 "asn_compiler.hpp"
 yy364:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17139,9 +17147,9 @@ yy381:
 		default: goto yy382;
 	}
 yy382:
-#line 1919 "asn_compiler.yacc"
+#line 1936 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-#line 17145 "asn_compiler.hpp"
+#line 17153 "asn_compiler.hpp"
 yy383:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17262,9 +17270,9 @@ yy390:
 		default: goto yy391;
 	}
 yy391:
-#line 1836 "asn_compiler.yacc"
+#line 1853 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-#line 17268 "asn_compiler.hpp"
+#line 17276 "asn_compiler.hpp"
 yy392:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17378,9 +17386,9 @@ yy398:
 		default: goto yy399;
 	}
 yy399:
-#line 1848 "asn_compiler.yacc"
+#line 1865 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-#line 17384 "asn_compiler.hpp"
+#line 17392 "asn_compiler.hpp"
 yy400:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17529,9 +17537,9 @@ yy411:
 		default: goto yy412;
 	}
 yy412:
-#line 1864 "asn_compiler.yacc"
+#line 1881 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-#line 17535 "asn_compiler.hpp"
+#line 17543 "asn_compiler.hpp"
 yy413:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17865,9 +17873,9 @@ yy433:
 		default: goto yy434;
 	}
 yy434:
-#line 1891 "asn_compiler.yacc"
+#line 1908 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-#line 17871 "asn_compiler.hpp"
+#line 17879 "asn_compiler.hpp"
 yy435:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18016,9 +18024,9 @@ yy446:
 		default: goto yy447;
 	}
 yy447:
-#line 1910 "asn_compiler.yacc"
+#line 1927 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-#line 18022 "asn_compiler.hpp"
+#line 18030 "asn_compiler.hpp"
 yy448:
 	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18090,9 +18098,9 @@ yy448:
 		default: goto yy449;
 	}
 yy449:
-#line 1911 "asn_compiler.yacc"
+#line 1928 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-#line 18096 "asn_compiler.hpp"
+#line 18104 "asn_compiler.hpp"
 yy450:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18192,9 +18200,9 @@ yy454:
 		default: goto yy455;
 	}
 yy455:
-#line 1920 "asn_compiler.yacc"
+#line 1937 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-#line 18198 "asn_compiler.hpp"
+#line 18206 "asn_compiler.hpp"
 yy456:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18336,9 +18344,9 @@ yy466:
 		default: goto yy467;
 	}
 yy467:
-#line 1845 "asn_compiler.yacc"
+#line 1862 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-#line 18342 "asn_compiler.hpp"
+#line 18350 "asn_compiler.hpp"
 yy468:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18445,9 +18453,9 @@ yy473:
 		default: goto yy474;
 	}
 yy474:
-#line 1856 "asn_compiler.yacc"
+#line 1873 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-#line 18451 "asn_compiler.hpp"
+#line 18459 "asn_compiler.hpp"
 yy475:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18540,9 +18548,9 @@ yy478:
 		default: goto yy479;
 	}
 yy479:
-#line 1860 "asn_compiler.yacc"
+#line 1877 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-#line 18546 "asn_compiler.hpp"
+#line 18554 "asn_compiler.hpp"
 yy480:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18635,9 +18643,9 @@ yy483:
 		default: goto yy484;
 	}
 yy484:
-#line 1866 "asn_compiler.yacc"
+#line 1883 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-#line 18641 "asn_compiler.hpp"
+#line 18649 "asn_compiler.hpp"
 yy485:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18759,9 +18767,9 @@ yy492:
 		default: goto yy493;
 	}
 yy493:
-#line 1877 "asn_compiler.yacc"
+#line 1894 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-#line 18765 "asn_compiler.hpp"
+#line 18773 "asn_compiler.hpp"
 yy494:
 	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18833,9 +18841,9 @@ yy494:
 		default: goto yy495;
 	}
 yy495:
-#line 1878 "asn_compiler.yacc"
+#line 1895 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-#line 18839 "asn_compiler.hpp"
+#line 18847 "asn_compiler.hpp"
 yy496:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18928,9 +18936,9 @@ yy499:
 		default: goto yy500;
 	}
 yy500:
-#line 1882 "asn_compiler.yacc"
+#line 1899 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-#line 18934 "asn_compiler.hpp"
+#line 18942 "asn_compiler.hpp"
 yy501:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19037,9 +19045,9 @@ yy506:
 		default: goto yy507;
 	}
 yy507:
-#line 1895 "asn_compiler.yacc"
+#line 1912 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-#line 19043 "asn_compiler.hpp"
+#line 19051 "asn_compiler.hpp"
 yy508:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19125,9 +19133,9 @@ yy510:
 		default: goto yy511;
 	}
 yy511:
-#line 1897 "asn_compiler.yacc"
+#line 1914 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-#line 19131 "asn_compiler.hpp"
+#line 19139 "asn_compiler.hpp"
 yy512:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19206,9 +19214,9 @@ yy513:
 		default: goto yy514;
 	}
 yy514:
-#line 1900 "asn_compiler.yacc"
+#line 1917 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-#line 19212 "asn_compiler.hpp"
+#line 19220 "asn_compiler.hpp"
 yy515:
 	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19280,9 +19288,9 @@ yy515:
 		default: goto yy516;
 	}
 yy516:
-#line 1902 "asn_compiler.yacc"
+#line 1919 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-#line 19286 "asn_compiler.hpp"
+#line 19294 "asn_compiler.hpp"
 yy517:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19417,9 +19425,9 @@ yy526:
 		default: goto yy527;
 	}
 yy527:
-#line 1923 "asn_compiler.yacc"
+#line 1940 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-#line 19423 "asn_compiler.hpp"
+#line 19431 "asn_compiler.hpp"
 yy528:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19589,9 +19597,9 @@ yy542:
 		default: goto yy543;
 	}
 yy543:
-#line 1858 "asn_compiler.yacc"
+#line 1875 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-#line 19595 "asn_compiler.hpp"
+#line 19603 "asn_compiler.hpp"
 yy544:
 	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19663,9 +19671,9 @@ yy544:
 		default: goto yy545;
 	}
 yy545:
-#line 1859 "asn_compiler.yacc"
+#line 1876 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-#line 19669 "asn_compiler.hpp"
+#line 19677 "asn_compiler.hpp"
 yy546:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19751,9 +19759,9 @@ yy548:
 		default: goto yy549;
 	}
 yy549:
-#line 1865 "asn_compiler.yacc"
+#line 1882 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-#line 19757 "asn_compiler.hpp"
+#line 19765 "asn_compiler.hpp"
 yy550:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19832,9 +19840,9 @@ yy551:
 		default: goto yy552;
 	}
 yy552:
-#line 1868 "asn_compiler.yacc"
+#line 1885 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-#line 19838 "asn_compiler.hpp"
+#line 19846 "asn_compiler.hpp"
 yy553:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19941,9 +19949,9 @@ yy558:
 		default: goto yy559;
 	}
 yy559:
-#line 1876 "asn_compiler.yacc"
+#line 1893 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-#line 19947 "asn_compiler.hpp"
+#line 19955 "asn_compiler.hpp"
 yy560:
 	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20015,9 +20023,9 @@ yy560:
 		default: goto yy561;
 	}
 yy561:
-#line 1879 "asn_compiler.yacc"
+#line 1896 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-#line 20021 "asn_compiler.hpp"
+#line 20029 "asn_compiler.hpp"
 yy562:
 	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20089,9 +20097,9 @@ yy562:
 		default: goto yy563;
 	}
 yy563:
-#line 1880 "asn_compiler.yacc"
+#line 1897 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-#line 20095 "asn_compiler.hpp"
+#line 20103 "asn_compiler.hpp"
 yy564:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20205,9 +20213,9 @@ yy570:
 		default: goto yy571;
 	}
 yy571:
-#line 1896 "asn_compiler.yacc"
+#line 1913 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-#line 20211 "asn_compiler.hpp"
+#line 20219 "asn_compiler.hpp"
 yy572:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20307,9 +20315,9 @@ yy576:
 		default: goto yy577;
 	}
 yy577:
-#line 1906 "asn_compiler.yacc"
+#line 1923 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-#line 20313 "asn_compiler.hpp"
+#line 20321 "asn_compiler.hpp"
 yy578:
 	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20381,9 +20389,9 @@ yy578:
 		default: goto yy579;
 	}
 yy579:
-#line 1908 "asn_compiler.yacc"
+#line 1925 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-#line 20387 "asn_compiler.hpp"
+#line 20395 "asn_compiler.hpp"
 yy580:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20654,9 +20662,9 @@ yy591:
 		default: goto yy592;
 	}
 yy592:
-#line 1841 "asn_compiler.yacc"
+#line 1858 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-#line 20660 "asn_compiler.hpp"
+#line 20668 "asn_compiler.hpp"
 yy593:
 	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20728,9 +20736,9 @@ yy593:
 		default: goto yy594;
 	}
 yy594:
-#line 1844 "asn_compiler.yacc"
+#line 1861 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-#line 20734 "asn_compiler.hpp"
+#line 20742 "asn_compiler.hpp"
 yy595:
 	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20802,9 +20810,9 @@ yy595:
 		default: goto yy596;
 	}
 yy596:
-#line 1847 "asn_compiler.yacc"
+#line 1864 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-#line 20808 "asn_compiler.hpp"
+#line 20816 "asn_compiler.hpp"
 yy597:
 	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20876,9 +20884,9 @@ yy597:
 		default: goto yy598;
 	}
 yy598:
-#line 1850 "asn_compiler.yacc"
+#line 1867 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-#line 20882 "asn_compiler.hpp"
+#line 20890 "asn_compiler.hpp"
 yy599:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20964,9 +20972,9 @@ yy601:
 		default: goto yy602;
 	}
 yy602:
-#line 1855 "asn_compiler.yacc"
+#line 1872 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-#line 20970 "asn_compiler.hpp"
+#line 20978 "asn_compiler.hpp"
 yy603:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21087,9 +21095,9 @@ yy610:
 		default: goto yy611;
 	}
 yy611:
-#line 1874 "asn_compiler.yacc"
+#line 1891 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-#line 21093 "asn_compiler.hpp"
+#line 21101 "asn_compiler.hpp"
 yy612:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21299,9 +21307,9 @@ yy623:
 		default: goto yy624;
 	}
 yy624:
-#line 1912 "asn_compiler.yacc"
+#line 1929 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-#line 21305 "asn_compiler.hpp"
+#line 21313 "asn_compiler.hpp"
 yy625:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21394,9 +21402,9 @@ yy628:
 		default: goto yy629;
 	}
 yy629:
-#line 1921 "asn_compiler.yacc"
+#line 1938 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-#line 21400 "asn_compiler.hpp"
+#line 21408 "asn_compiler.hpp"
 yy630:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21510,9 +21518,9 @@ yy636:
 		default: goto yy637;
 	}
 yy637:
-#line 1851 "asn_compiler.yacc"
+#line 1868 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-#line 21516 "asn_compiler.hpp"
+#line 21524 "asn_compiler.hpp"
 yy638:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21591,9 +21599,9 @@ yy639:
 		default: goto yy640;
 	}
 yy640:
-#line 1853 "asn_compiler.yacc"
+#line 1870 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-#line 21597 "asn_compiler.hpp"
+#line 21605 "asn_compiler.hpp"
 yy641:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21679,9 +21687,9 @@ yy643:
 		default: goto yy644;
 	}
 yy644:
-#line 1863 "asn_compiler.yacc"
+#line 1880 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-#line 21685 "asn_compiler.hpp"
+#line 21693 "asn_compiler.hpp"
 yy645:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21781,9 +21789,9 @@ yy649:
 		default: goto yy650;
 	}
 yy650:
-#line 1875 "asn_compiler.yacc"
+#line 1892 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-#line 21787 "asn_compiler.hpp"
+#line 21795 "asn_compiler.hpp"
 yy651:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21946,9 +21954,9 @@ yy664:
 		default: goto yy665;
 	}
 yy665:
-#line 1924 "asn_compiler.yacc"
+#line 1941 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-#line 21952 "asn_compiler.hpp"
+#line 21960 "asn_compiler.hpp"
 yy666:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22048,9 +22056,9 @@ yy670:
 		default: goto yy671;
 	}
 yy671:
-#line 1840 "asn_compiler.yacc"
+#line 1857 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-#line 22054 "asn_compiler.hpp"
+#line 22062 "asn_compiler.hpp"
 yy672:
 	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22122,9 +22130,9 @@ yy672:
 		default: goto yy673;
 	}
 yy673:
-#line 1852 "asn_compiler.yacc"
+#line 1869 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-#line 22128 "asn_compiler.hpp"
+#line 22136 "asn_compiler.hpp"
 yy674:
 	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22196,9 +22204,9 @@ yy674:
 		default: goto yy675;
 	}
 yy675:
-#line 1857 "asn_compiler.yacc"
+#line 1874 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-#line 22202 "asn_compiler.hpp"
+#line 22210 "asn_compiler.hpp"
 yy676:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22375,9 +22383,9 @@ yy691:
 		default: goto yy692;
 	}
 yy692:
-#line 1916 "asn_compiler.yacc"
+#line 1933 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-#line 22381 "asn_compiler.hpp"
+#line 22389 "asn_compiler.hpp"
 yy693:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22526,9 +22534,9 @@ yy704:
 		default: goto yy705;
 	}
 yy705:
-#line 1881 "asn_compiler.yacc"
+#line 1898 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-#line 22532 "asn_compiler.hpp"
+#line 22540 "asn_compiler.hpp"
 yy706:
 	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22600,9 +22608,9 @@ yy706:
 		default: goto yy707;
 	}
 yy707:
-#line 1883 "asn_compiler.yacc"
+#line 1900 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-#line 22606 "asn_compiler.hpp"
+#line 22614 "asn_compiler.hpp"
 yy708:
 	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22674,9 +22682,9 @@ yy708:
 		default: goto yy709;
 	}
 yy709:
-#line 1884 "asn_compiler.yacc"
+#line 1901 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-#line 22680 "asn_compiler.hpp"
+#line 22688 "asn_compiler.hpp"
 yy710:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22755,9 +22763,9 @@ yy711:
 		default: goto yy712;
 	}
 yy712:
-#line 1888 "asn_compiler.yacc"
+#line 1905 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-#line 22761 "asn_compiler.hpp"
+#line 22769 "asn_compiler.hpp"
 yy713:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22857,9 +22865,9 @@ yy717:
 		default: goto yy718;
 	}
 yy718:
-#line 1904 "asn_compiler.yacc"
+#line 1921 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-#line 22863 "asn_compiler.hpp"
+#line 22871 "asn_compiler.hpp"
 yy719:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22980,9 +22988,9 @@ yy726:
 		default: goto yy727;
 	}
 yy727:
-#line 1867 "asn_compiler.yacc"
+#line 1884 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-#line 22986 "asn_compiler.hpp"
+#line 22994 "asn_compiler.hpp"
 yy728:
 	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23054,9 +23062,9 @@ yy728:
 		default: goto yy729;
 	}
 yy729:
-#line 1872 "asn_compiler.yacc"
+#line 1889 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-#line 23060 "asn_compiler.hpp"
+#line 23068 "asn_compiler.hpp"
 yy730:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23135,9 +23143,9 @@ yy731:
 		default: goto yy732;
 	}
 yy732:
-#line 1873 "asn_compiler.yacc"
+#line 1890 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-#line 23141 "asn_compiler.hpp"
+#line 23149 "asn_compiler.hpp"
 yy733:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23216,9 +23224,9 @@ yy734:
 		default: goto yy735;
 	}
 yy735:
-#line 1890 "asn_compiler.yacc"
+#line 1907 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-#line 23222 "asn_compiler.hpp"
+#line 23230 "asn_compiler.hpp"
 yy736:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23297,9 +23305,9 @@ yy737:
 		default: goto yy738;
 	}
 yy738:
-#line 1899 "asn_compiler.yacc"
+#line 1916 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-#line 23303 "asn_compiler.hpp"
+#line 23311 "asn_compiler.hpp"
 yy739:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23453,9 +23461,9 @@ yy742:
 		default: goto yy743;
 	}
 yy743:
-#line 1914 "asn_compiler.yacc"
+#line 1931 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-#line 23459 "asn_compiler.hpp"
+#line 23467 "asn_compiler.hpp"
 yy744:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23541,9 +23549,9 @@ yy746:
 		default: goto yy747;
 	}
 yy747:
-#line 1926 "asn_compiler.yacc"
+#line 1943 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-#line 23547 "asn_compiler.hpp"
+#line 23555 "asn_compiler.hpp"
 yy748:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23636,9 +23644,9 @@ yy751:
 		default: goto yy752;
 	}
 yy752:
-#line 1887 "asn_compiler.yacc"
+#line 1904 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-#line 23642 "asn_compiler.hpp"
+#line 23650 "asn_compiler.hpp"
 yy753:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23745,9 +23753,9 @@ yy758:
 		default: goto yy759;
 	}
 yy759:
-#line 1925 "asn_compiler.yacc"
+#line 1942 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-#line 23751 "asn_compiler.hpp"
+#line 23759 "asn_compiler.hpp"
 yy760:
 	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23819,9 +23827,9 @@ yy760:
 		default: goto yy761;
 	}
 yy761:
-#line 1837 "asn_compiler.yacc"
+#line 1854 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-#line 23825 "asn_compiler.hpp"
+#line 23833 "asn_compiler.hpp"
 yy762:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23900,9 +23908,9 @@ yy763:
 		default: goto yy764;
 	}
 yy764:
-#line 1871 "asn_compiler.yacc"
+#line 1888 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-#line 23906 "asn_compiler.hpp"
+#line 23914 "asn_compiler.hpp"
 yy765:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23981,9 +23989,9 @@ yy766:
 		default: goto yy767;
 	}
 yy767:
-#line 1901 "asn_compiler.yacc"
+#line 1918 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-#line 23987 "asn_compiler.hpp"
+#line 23995 "asn_compiler.hpp"
 yy768:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24062,9 +24070,9 @@ yy769:
 		default: goto yy770;
 	}
 yy770:
-#line 1918 "asn_compiler.yacc"
+#line 1935 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-#line 24068 "asn_compiler.hpp"
+#line 24076 "asn_compiler.hpp"
 yy771:
 	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24136,9 +24144,9 @@ yy771:
 		default: goto yy772;
 	}
 yy772:
-#line 1922 "asn_compiler.yacc"
+#line 1939 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-#line 24142 "asn_compiler.hpp"
+#line 24150 "asn_compiler.hpp"
 yy773:
 	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24210,9 +24218,9 @@ yy773:
 		default: goto yy774;
 	}
 yy774:
-#line 1861 "asn_compiler.yacc"
+#line 1878 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-#line 24216 "asn_compiler.hpp"
+#line 24224 "asn_compiler.hpp"
 yy775:
 	yyaccept = 98;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24284,9 +24292,9 @@ yy775:
 		default: goto yy776;
 	}
 yy776:
-#line 1892 "asn_compiler.yacc"
+#line 1909 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-#line 24290 "asn_compiler.hpp"
+#line 24298 "asn_compiler.hpp"
 yy777:
 	yyaccept = 99;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24358,11 +24366,11 @@ yy777:
 		default: goto yy778;
 	}
 yy778:
-#line 1905 "asn_compiler.yacc"
+#line 1922 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
-#line 24364 "asn_compiler.hpp"
+#line 24372 "asn_compiler.hpp"
 }
-#line 1980 "asn_compiler.yacc"
+#line 1997 "asn_compiler.yacc"
 
     }
 }
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 66b5ddb..d772ed0 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -495,6 +495,7 @@ struct ComponentType
     absl::optional<Value> default_value;
     absl::optional<Type>  components_of;
     StorageMode           optional_storage;
+    bool                  is_extension; // Follows the extension marker
 };
 
 struct Tag
@@ -511,6 +512,8 @@ struct TaggedType
     Type        type;
 };
 
+void set_extension(ComponentTypeList& components);
+
 struct TypeAssignment
 {
     Type type;
@@ -752,6 +755,7 @@ bool is_octet_string(const Type& type);
 bool is_boolean(const Type& type);
 bool is_oid(const Type& type);
 bool is_defined(const Type& type);
+bool is_object_class_field(const Type& type);
 bool is_generated(const Type& type);
 
 struct Context;
diff --git a/src/compiler/include/fast_ber/compiler/ObjectClass.hpp b/src/compiler/include/fast_ber/compiler/ObjectClass.hpp
index bdbc775..c7c64e7 100644
--- a/src/compiler/include/fast_ber/compiler/ObjectClass.hpp
+++ b/src/compiler/include/fast_ber/compiler/ObjectClass.hpp
@@ -2,18 +2,6 @@
 
 #include "fast_ber/compiler/CompilerTypes.hpp"
 
-void object_class_to_concrete(Asn1Tree& tree, Module& module, Type& type);
-void object_class_to_concrete(Asn1Tree& tree, Module& module, ChoiceType& choice);
-void object_class_to_concrete(Asn1Tree& tree, Module& module, SequenceType& sequence);
-void object_class_to_concrete(Asn1Tree& tree, Module& module, SequenceOfType& sequence);
-void object_class_to_concrete(Asn1Tree& tree, Module& module, SetType& set);
-void object_class_to_concrete(Asn1Tree& tree, Module& module, SetOfType& set);
-void object_class_to_concrete(Asn1Tree& tree, Module& module, PrefixedType& prefixed_type);
-void object_class_to_concrete(Asn1Tree& tree, Module& module, BuiltinType& type);
-void object_class_to_concrete(Asn1Tree& tree, Module& module, Type& type);
-
-Type create_concrete_type(Asn1Tree& tree, Module& module, ObjectClassFieldType& object_class_field);
-
 void                  remove_object_classes(Asn1Tree& tree, const std::set<std::string>& object_class_names);
 std::set<std::string> get_object_class_names(const Asn1Tree& tree);
 
diff --git a/src/compiler/include/fast_ber/compiler/Parameters.hpp b/src/compiler/include/fast_ber/compiler/Parameters.hpp
index ab96213..955d6c4 100644
--- a/src/compiler/include/fast_ber/compiler/Parameters.hpp
+++ b/src/compiler/include/fast_ber/compiler/Parameters.hpp
@@ -4,28 +4,12 @@
 
 using ParameterTypes = std::unordered_map<std::string, Type>;
 
-void resolve_parameterized(const Asn1Tree&, const Module&, Type&, const ParameterTypes&);
-void resolve_parameterized(const Asn1Tree&, const Module&, ChoiceType&, const ParameterTypes&);
-void resolve_parameterized(const Asn1Tree&, const Module&, SequenceType&, const ParameterTypes&);
-void resolve_parameterized(const Asn1Tree&, const Module&, SequenceOfType&, const ParameterTypes&);
-void resolve_parameterized(const Asn1Tree&, const Module&, SetType&, const ParameterTypes&);
-void resolve_parameterized(const Asn1Tree&, const Module&, SetOfType&, const ParameterTypes&);
-void resolve_parameterized(const Asn1Tree&, const Module&, PrefixedType&, const ParameterTypes&);
-void resolve_parameterized(const Asn1Tree&, const Module&, BuiltinType&, const ParameterTypes&);
-void resolve_parameterized(const Asn1Tree&, const Module&, Type&, const ParameterTypes&);
+void resolve_parameterized(Type& type, const ParameterTypes& parameters);
 
-void parameterized_to_concrete(const Asn1Tree&, const Module&, Type&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, ChoiceType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, SequenceType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, SequenceOfType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, SetType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, SetOfType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, PrefixedType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, BuiltinType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, Type&);
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, Type& param_type,
+                               std::vector<const Assignment*>& templates);
 
 void remove_parameter_templates(Asn1Tree&);
 
-// Convert usage of object classes to standard ASN.1 types
-void resolve_parameter(Asn1Tree&, Module&, DefinedType&, const Assignment&);
+// Convert usage of parameterized types into standard ASN.1 types
 void resolve_parameters(Asn1Tree&);
diff --git a/src/compiler/include/fast_ber/compiler/ResolveType.hpp b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
index 5ea304e..c7b3465 100644
--- a/src/compiler/include/fast_ber/compiler/ResolveType.hpp
+++ b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
@@ -27,6 +27,23 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
 NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::string& current_module_reference,
                                            const NamedType& type);
 
+// Follows references, such as imports, to the assignment which defines the referenced item
+struct AssignmentAndModule
+{
+    const Assignment& assignment;
+    const Module&     module;
+};
+AssignmentAndModule resolve_reference(const Asn1Tree& tree, const Module& module, const DefinedType& defined);
+
+bool is_imported(const Module& module, const std::string& name);
+
+// Makes a type written in a module usable from other modules. Parameters are not references to anything in the module
+void qualify_references(const Asn1Tree& tree, const Module& module, Type& type,
+                        const std::vector<Parameter>& parameters);
+
+// Throws if the tag of any type depends on itself
+void check_circular_tags(const Asn1Tree& tree);
+
 // Give a number to each enumerator, and to each number which is given as a reference
 void resolve_numbers(Asn1Tree& tree);
 
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 5282fe8..99fefe1 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -262,8 +262,6 @@ int main(int argc, char** argv)
         const std::string& detail_filame   = std::string(argv[argc - 1]) + ".detail.hpp";
 
         resolve_tagging_environment(context.asn1_tree);
-        resolve_numbers(context.asn1_tree);
-        resolve_parameters(context.asn1_tree);
         context.asn1_tree.modules = reorder_modules(context.asn1_tree.modules);
 
         for (auto& module : context.asn1_tree.modules)
@@ -271,11 +269,19 @@ int main(int argc, char** argv)
             module.assignments = split_imports(context.asn1_tree, module.assignments, module.imports);
             module.assignments = split_definitions(module.assignments);
             check_duplicated_names(module.assignments, module.module_reference);
-            module.assignments = split_nested_structures(context.asn1_tree, module);
         }
 
-        resolve_components_of(context.asn1_tree);
+        resolve_numbers(context.asn1_tree);
+        resolve_parameters(context.asn1_tree);
         resolve_object_classes(context.asn1_tree);
+        check_circular_tags(context.asn1_tree);
+        resolve_components_of(context.asn1_tree);
+
+        for (auto& module : context.asn1_tree.modules)
+        {
+            module.assignments = split_nested_structures(context.asn1_tree, module);
+        }
+
         apply_automatic_tags(context.asn1_tree);
 
         for (auto& module : context.asn1_tree.modules)
-- 
2.43.0


From fc73bc6ed1d7a446d13f47f1c03fcccdf9090ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:16 +0000
Subject: [PATCH 53/59] fix: automatic tags end the search for the tags of a
 circular CHOICE

---
 src/compiler/ResolveType.cpp                    | 17 ++++++++++++++---
 .../include/fast_ber/compiler/ResolveType.hpp   |  5 ++++-
 src/compiler_main/CompilerMain.cpp              |  3 ++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index 446f4bc..c4c887d 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -413,18 +413,29 @@ void check_circular_tags(const Asn1Tree& tree, const Module& module, const Type&
 }
 } // namespace
 
-void check_circular_tags(const Asn1Tree& tree)
+void check_circular_references(const Asn1Tree& tree)
 {
-    std::vector<const Assignment*> definitions;
     for (const Module& module : tree.modules)
     {
         for (const Assignment& assignment : module.assignments)
         {
             if (is_type(assignment))
             {
-                // References and tags alone
                 resolve_base_type(tree, module, NamedType{assignment.name, type(assignment)});
+            }
+        }
+    }
+}
 
+void check_circular_tags(const Asn1Tree& tree)
+{
+    std::vector<const Assignment*> definitions;
+    for (const Module& module : tree.modules)
+    {
+        for (const Assignment& assignment : module.assignments)
+        {
+            if (is_type(assignment))
+            {
                 definitions.push_back(&assignment);
                 check_circular_tags(tree, module, type(assignment), definitions);
                 definitions.pop_back();
diff --git a/src/compiler/include/fast_ber/compiler/ResolveType.hpp b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
index c7b3465..84846b3 100644
--- a/src/compiler/include/fast_ber/compiler/ResolveType.hpp
+++ b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
@@ -41,7 +41,10 @@ bool is_imported(const Module& module, const std::string& name);
 void qualify_references(const Asn1Tree& tree, const Module& module, Type& type,
                         const std::vector<Parameter>& parameters);
 
-// Throws if the tag of any type depends on itself
+// Throws if any type is a reference to itself
+void check_circular_references(const Asn1Tree& tree);
+
+// Throws if the tag of any type depends on itself. Tags are known once automatic tags were applied
 void check_circular_tags(const Asn1Tree& tree);
 
 // Give a number to each enumerator, and to each number which is given as a reference
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 99fefe1..53a856b 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -274,7 +274,7 @@ int main(int argc, char** argv)
         resolve_numbers(context.asn1_tree);
         resolve_parameters(context.asn1_tree);
         resolve_object_classes(context.asn1_tree);
-        check_circular_tags(context.asn1_tree);
+        check_circular_references(context.asn1_tree);
         resolve_components_of(context.asn1_tree);
 
         for (auto& module : context.asn1_tree.modules)
@@ -283,6 +283,7 @@ int main(int argc, char** argv)
         }
 
         apply_automatic_tags(context.asn1_tree);
+        check_circular_tags(context.asn1_tree);
 
         for (auto& module : context.asn1_tree.modules)
         {
-- 
2.43.0


From 730d0b692257266b1028583f0a7b70c43439888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:16 +0000
Subject: [PATCH 54/59] fix: refuse components and alternatives with the same
 name

---
 src/compiler/TypeAsString.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index e8992e5..ae7944a 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -229,8 +229,33 @@ std::string type_as_string(const RelativeOIDType& type, const Module& module, co
 {
     return "::fast_ber::RelativeOID" + identifier_template_params(type, module, tree, identifier_override);
 }
+template <typename CollectionType>
+void check_duplicated_components(const CollectionType& collection, const std::string& type_name)
+{
+    absl::flat_hash_set<std::string> names;
+    for (const ComponentType& component : collection.components)
+    {
+        if (!names.insert(component.named_type.name).second)
+        {
+            throw std::runtime_error("Name " + component.named_type.name + " occurs more than once in " + type_name);
+        }
+    }
+}
+void check_valid(const ChoiceType& choice, const std::string& type_name)
+{
+    absl::flat_hash_set<std::string> names;
+    for (const NamedType& named_type : choice.choices)
+    {
+        if (!names.insert(named_type.name).second)
+        {
+            throw std::runtime_error("Name " + named_type.name + " occurs more than once in CHOICE " + type_name);
+        }
+    }
+}
 void check_valid(const SequenceType& sequence, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
+    check_duplicated_components(sequence, "SEQUENCE " + type_name);
+
     std::vector<Identifier> previous_optional_ids;
     std::string             previous_optional_type;
     for (const ComponentType& component : sequence.components)
@@ -285,6 +310,8 @@ std::string type_as_string(const SequenceOfType& sequence, const Module& module,
 }
 void check_valid(const SetType& set, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
+    check_duplicated_components(set, "SET " + type_name);
+
     absl::flat_hash_set<Identifier> ids;
     for (const ComponentType& component : set.components)
     {
@@ -440,6 +467,7 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     else if (is_choice(assignment_type))
     {
         const ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(assignment_type));
+        check_valid(choice, name);
         return create_choice_definition(choice, module, tree, name, identifier_override);
     }
 
-- 
2.43.0


From 23797ad0c0b5a67211eb599d1d1e0272e6772681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:16 +0000
Subject: [PATCH 55/59] fix: read any amount of white space, refuse comments
 which are not closed and endless nesting, print usage as an error

---
 src/compiler/asn_compiler.yacc             |   73 +-
 src/compiler/autogen_copy/asn_compiler.hpp | 3970 ++++++++++----------
 src/compiler_main/CompilerMain.cpp         |    2 +-
 3 files changed, 2069 insertions(+), 1976 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 830472e..54f037f 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -20,6 +20,44 @@
         yy::location location;
 
         Asn1Tree asn1_tree;
+
+        // Types, values and constraints are processed recursively, so there is a limit to their nesting. Brackets and
+        // prefixes ("SEQUENCE OF", "[1]") nest; prefixes do so up to the next separator.
+        static constexpr std::size_t max_nesting = 250;
+        std::size_t                  nesting     = 0;
+        std::vector<std::size_t>     prefixes    = {0};
+
+        void nest()
+        {
+            if (++nesting > max_nesting)
+            {
+                throw yy::asn1_parser::syntax_error(location, "nested too deeply");
+            }
+        }
+        void open()
+        {
+            prefixes.push_back(0);
+            nest();
+        }
+        void prefix()
+        {
+            prefixes.back()++;
+            nest();
+        }
+        void separate()
+        {
+            nesting -= prefixes.back();
+            prefixes.back() = 0;
+        }
+        void close()
+        {
+            if (prefixes.size() > 1)
+            {
+                separate();
+                prefixes.pop_back();
+                nesting--;
+            }
+        }
     };
     void yy::asn1_parser::error(const location_type& l, const std::string& m)
     {
@@ -1839,6 +1877,8 @@ word:
 namespace yy {
 
     asn1_parser::symbol_type yylex(Context& context_)
+    {
+    while (true)
     {
         const char* start = context_.cursor;
         const char* YYMARKER = nullptr;
@@ -1908,7 +1948,7 @@ re2c:define:YYCURSOR = "context_.cursor";
 "OBJECT"                { context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
 "ObjectDescriptor"      { context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
 "OCTET"                 { context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-"OF"                    { context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
+"OF"                    { context_.location.columns(context_.cursor - start); context_.prefix(); return asn1_parser::make_OF (context_.location); }
 "OID_IRI"               { context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
 "OPTIONAL"              { context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
 "PATTERN"               { context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
@@ -1945,11 +1985,13 @@ re2c:define:YYCURSOR = "context_.cursor";
 
 // Comments
 "--" ([\-]?[^\r\n\-\000])* "--"
-                        { context_.location.columns(context_.cursor - start); return yylex(context_); }
+                        { context_.location.columns(context_.cursor - start); continue; }
 "--" ([\-]?[^\r\n\-\000])*[\-]?
-                        { context_.location.columns(context_.cursor - start); return yylex(context_); }
+                        { context_.location.columns(context_.cursor - start); continue; }
 "/*" ([^\*\000]|([\*]+[^\*\/\000]))*[\*]+ "/"
-                        { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
+                        { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
+
+"/*"                    { throw asn1_parser::syntax_error(context_.location, "comment is not closed"); }
 
 // Identifiers
 [0-9]+'\.'[0-9]+        { context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
@@ -1970,22 +2012,22 @@ re2c:define:YYCURSOR = "context_.cursor";
 "\000"                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
 
 // White space
-"\r\n" | "\n"           { context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-[\t\v\b\f ]             { context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
+"\r\n" | "\n"           { context_.location.columns(context_.cursor - start); context_.location.lines();   continue; }
+[\t\v\b\f ]             { context_.location.columns(context_.cursor - start); context_.location.columns(); continue; }
 
 // Symbols
-"::="                   { context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
+"::="                   { context_.location.columns(context_.cursor - start); context_.separate(); return asn1_parser::make_DEFINED_AS (context_.location); }
 "\.\.\."                { context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
 "\.\."                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-"{"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-"}"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-"("                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-")"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-"["                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-"]"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
+"{"                     { context_.location.columns(context_.cursor - start); context_.open(); return asn1_parser::make_OPEN_BRACE (context_.location); }
+"}"                     { context_.location.columns(context_.cursor - start); context_.close(); return asn1_parser::make_CLOSE_BRACE (context_.location); }
+"("                     { context_.location.columns(context_.cursor - start); context_.open(); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
+")"                     { context_.location.columns(context_.cursor - start); context_.close(); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
+"["                     { context_.location.columns(context_.cursor - start); context_.open(); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
+"]"                     { context_.location.columns(context_.cursor - start); context_.close(); context_.prefix(); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
 ":"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
 ";"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-","                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
+","                     { context_.location.columns(context_.cursor - start); context_.separate(); return asn1_parser::make_COMMA (context_.location); }
 "-"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
 "\."                    { context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
 "|"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
@@ -1993,7 +2035,8 @@ re2c:define:YYCURSOR = "context_.cursor";
 "<"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
 "^"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
 "@"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-.                       { std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
+.                       { std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
 %}
     }
+    }
 }
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 4f2d9f1..de44ba5 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -6720,6 +6720,44 @@ switch (yykind)
         yy::location location;
 
         Asn1Tree asn1_tree;
+
+        // Types, values and constraints are processed recursively, so there is a limit to their nesting. Brackets and
+        // prefixes ("SEQUENCE OF", "[1]") nest; prefixes do so up to the next separator.
+        static constexpr std::size_t max_nesting = 250;
+        std::size_t                  nesting     = 0;
+        std::vector<std::size_t>     prefixes    = {0};
+
+        void nest()
+        {
+            if (++nesting > max_nesting)
+            {
+                throw yy::asn1_parser::syntax_error(location, "nested too deeply");
+            }
+        }
+        void open()
+        {
+            prefixes.push_back(0);
+            nest();
+        }
+        void prefix()
+        {
+            prefixes.back()++;
+            nest();
+        }
+        void separate()
+        {
+            nesting -= prefixes.back();
+            prefixes.back() = 0;
+        }
+        void close()
+        {
+            if (prefixes.size() > 1)
+            {
+                separate();
+                prefixes.pop_back();
+                nesting--;
+            }
+        }
     };
     void yy::asn1_parser::error(const location_type& l, const std::string& m)
     {
@@ -11866,65 +11904,65 @@ namespace yy {
   const short
   asn1_parser::yyrline_[] =
   {
-       0,   327,   327,   328,   331,   346,   349,   350,   351,   354,
-     357,   359,   363,   367,   369,   374,   378,   380,   384,   386,
-     388,   389,   390,   391,   394,   396,   404,   406,   410,   414,
-     416,   420,   421,   422,   425,   426,   427,   430,   434,   435,
-     436,   439,   442,   445,   446,   447,   450,   453,   454,   455,
-     458,   461,   462,   463,   469,   470,   473,   474,   477,   478,
-     481,   484,   487,   488,   489,   492,   493,   496,   497,   500,
-     506,   507,   512,   513,   516,   519,   522,   525,   526,   529,
-     530,   533,   534,   538,   539,   542,   545,   549,   552,   553,
-     554,   555,   556,   565,   567,   574,   576,   578,   580,   587,
-     591,   595,   599,   611,   615,   617,   621,   623,   627,   629,
-     633,   635,   651,   663,   672,   680,   682,   686,   687,   690,
-     691,   692,   695,   700,   701,   702,   703,   704,   705,   706,
-     709,   711,   715,   716,   719,   720,   723,   724,   727,   728,
-     731,   732,   733,   744,   752,   759,   760,   761,   764,   767,
-     771,   772,   776,   777,   778,   781,   784,   788,   789,   792,
-     794,   796,   798,   802,   803,   806,   808,   812,   813,   814,
-     817,   818,   821,   823,   826,   828,   831,   833,   837,   853,
-     855,   861,   863,   867,   871,   873,   875,   884,   886,   890,
-     892,   894,   896,   899,   901,   905,   907,   909,   915,   917,
-     920,   924,   927,   929,   933,   935,   938,   944,   945,   946,
-     947,   948,   949,   950,   951,   959,   963,   988,   992,   996,
-    1000,  1002,  1004,  1006,  1008,  1013,  1014,  1015,  1016,  1017,
-    1018,  1019,  1020,  1021,  1022,  1023,  1024,  1025,  1026,  1027,
-    1028,  1029,  1030,  1031,  1032,  1033,  1034,  1035,  1036,  1037,
-    1038,  1039,  1040,  1041,  1042,  1043,  1046,  1050,  1052,  1054,
-    1056,  1058,  1060,  1062,  1064,  1066,  1068,  1070,  1071,  1073,
-    1075,  1077,  1081,  1082,  1083,  1084,  1085,  1087,  1089,  1091,
-    1093,  1095,  1100,  1102,  1104,  1107,  1108,  1111,  1112,  1115,
-    1118,  1120,  1128,  1131,  1133,  1137,  1139,  1143,  1145,  1149,
-    1151,  1155,  1157,  1161,  1165,  1168,  1171,  1175,  1178,  1180,
-    1184,  1186,  1194,  1197,  1199,  1203,  1204,  1207,  1208,  1222,
-    1225,  1228,  1230,  1234,  1236,  1239,  1244,  1249,  1255,  1259,
-    1263,  1266,  1271,  1273,  1277,  1280,  1283,  1286,  1288,  1290,
-    1292,  1304,  1306,  1310,  1312,  1316,  1318,  1322,  1326,  1330,
-    1332,  1334,  1338,  1340,  1347,  1350,  1354,  1356,  1358,  1362,
-    1366,  1367,  1370,  1376,  1380,  1382,  1384,  1386,  1396,  1399,
-    1401,  1405,  1407,  1411,  1413,  1415,  1419,  1423,  1425,  1428,
-    1432,  1444,  1447,  1453,  1456,  1457,  1460,  1461,  1464,  1470,
-    1477,  1483,  1486,  1489,  1492,  1495,  1498,  1501,  1503,  1507,
-    1509,  1511,  1513,  1515,  1517,  1519,  1521,  1523,  1525,  1527,
-    1529,  1531,  1535,  1539,  1541,  1545,  1547,  1549,  1551,  1553,
-    1555,  1557,  1559,  1563,  1567,  1568,  1571,  1574,  1575,  1576,
-    1579,  1580,  1583,  1584,  1587,  1590,  1591,  1594,  1597,  1598,
-    1601,  1604,  1607,  1608,  1611,  1612,  1615,  1617,  1620,  1621,
-    1622,  1623,  1624,  1625,  1626,  1627,  1628,  1634,  1637,  1639,
-    1641,  1643,  1645,  1647,  1649,  1651,  1653,  1657,  1660,  1663,
-    1666,  1667,  1670,  1671,  1674,  1675,  1678,  1679,  1682,  1685,
-    1688,  1691,  1692,  1695,  1697,  1698,  1699,  1700,  1703,  1704,
-    1707,  1710,  1713,  1714,  1717,  1718,  1719,  1720,  1723,  1726,
-    1729,  1730,  1733,  1734,  1735,  1738,  1742,  1746,  1750,  1754,
-    1758,  1759,  1760,  1761,  1762,  1763,  1764,  1765,  1766,  1767,
-    1768,  1769,  1770,  1771,  1772,  1773,  1774,  1775,  1776,  1777,
-    1778,  1779,  1780,  1781,  1782,  1783,  1784,  1785,  1786,  1787,
-    1788,  1789,  1790,  1791,  1792,  1793,  1794,  1795,  1796,  1797,
-    1798,  1799,  1800,  1801,  1802,  1803,  1804,  1805,  1806,  1807,
-    1808,  1809,  1810,  1811,  1812,  1813,  1814,  1815,  1816,  1817,
-    1818,  1819,  1820,  1821,  1822,  1823,  1824,  1825,  1826,  1827,
-    1828,  1829,  1830,  1831,  1832,  1833,  1834
+       0,   365,   365,   366,   369,   384,   387,   388,   389,   392,
+     395,   397,   401,   405,   407,   412,   416,   418,   422,   424,
+     426,   427,   428,   429,   432,   434,   442,   444,   448,   452,
+     454,   458,   459,   460,   463,   464,   465,   468,   472,   473,
+     474,   477,   480,   483,   484,   485,   488,   491,   492,   493,
+     496,   499,   500,   501,   507,   508,   511,   512,   515,   516,
+     519,   522,   525,   526,   527,   530,   531,   534,   535,   538,
+     544,   545,   550,   551,   554,   557,   560,   563,   564,   567,
+     568,   571,   572,   576,   577,   580,   583,   587,   590,   591,
+     592,   593,   594,   603,   605,   612,   614,   616,   618,   625,
+     629,   633,   637,   649,   653,   655,   659,   661,   665,   667,
+     671,   673,   689,   701,   710,   718,   720,   724,   725,   728,
+     729,   730,   733,   738,   739,   740,   741,   742,   743,   744,
+     747,   749,   753,   754,   757,   758,   761,   762,   765,   766,
+     769,   770,   771,   782,   790,   797,   798,   799,   802,   805,
+     809,   810,   814,   815,   816,   819,   822,   826,   827,   830,
+     832,   834,   836,   840,   841,   844,   846,   850,   851,   852,
+     855,   856,   859,   861,   864,   866,   869,   871,   875,   891,
+     893,   899,   901,   905,   909,   911,   913,   922,   924,   928,
+     930,   932,   934,   937,   939,   943,   945,   947,   953,   955,
+     958,   962,   965,   967,   971,   973,   976,   982,   983,   984,
+     985,   986,   987,   988,   989,   997,  1001,  1026,  1030,  1034,
+    1038,  1040,  1042,  1044,  1046,  1051,  1052,  1053,  1054,  1055,
+    1056,  1057,  1058,  1059,  1060,  1061,  1062,  1063,  1064,  1065,
+    1066,  1067,  1068,  1069,  1070,  1071,  1072,  1073,  1074,  1075,
+    1076,  1077,  1078,  1079,  1080,  1081,  1084,  1088,  1090,  1092,
+    1094,  1096,  1098,  1100,  1102,  1104,  1106,  1108,  1109,  1111,
+    1113,  1115,  1119,  1120,  1121,  1122,  1123,  1125,  1127,  1129,
+    1131,  1133,  1138,  1140,  1142,  1145,  1146,  1149,  1150,  1153,
+    1156,  1158,  1166,  1169,  1171,  1175,  1177,  1181,  1183,  1187,
+    1189,  1193,  1195,  1199,  1203,  1206,  1209,  1213,  1216,  1218,
+    1222,  1224,  1232,  1235,  1237,  1241,  1242,  1245,  1246,  1260,
+    1263,  1266,  1268,  1272,  1274,  1277,  1282,  1287,  1293,  1297,
+    1301,  1304,  1309,  1311,  1315,  1318,  1321,  1324,  1326,  1328,
+    1330,  1342,  1344,  1348,  1350,  1354,  1356,  1360,  1364,  1368,
+    1370,  1372,  1376,  1378,  1385,  1388,  1392,  1394,  1396,  1400,
+    1404,  1405,  1408,  1414,  1418,  1420,  1422,  1424,  1434,  1437,
+    1439,  1443,  1445,  1449,  1451,  1453,  1457,  1461,  1463,  1466,
+    1470,  1482,  1485,  1491,  1494,  1495,  1498,  1499,  1502,  1508,
+    1515,  1521,  1524,  1527,  1530,  1533,  1536,  1539,  1541,  1545,
+    1547,  1549,  1551,  1553,  1555,  1557,  1559,  1561,  1563,  1565,
+    1567,  1569,  1573,  1577,  1579,  1583,  1585,  1587,  1589,  1591,
+    1593,  1595,  1597,  1601,  1605,  1606,  1609,  1612,  1613,  1614,
+    1617,  1618,  1621,  1622,  1625,  1628,  1629,  1632,  1635,  1636,
+    1639,  1642,  1645,  1646,  1649,  1650,  1653,  1655,  1658,  1659,
+    1660,  1661,  1662,  1663,  1664,  1665,  1666,  1672,  1675,  1677,
+    1679,  1681,  1683,  1685,  1687,  1689,  1691,  1695,  1698,  1701,
+    1704,  1705,  1708,  1709,  1712,  1713,  1716,  1717,  1720,  1723,
+    1726,  1729,  1730,  1733,  1735,  1736,  1737,  1738,  1741,  1742,
+    1745,  1748,  1751,  1752,  1755,  1756,  1757,  1758,  1761,  1764,
+    1767,  1768,  1771,  1772,  1773,  1776,  1780,  1784,  1788,  1792,
+    1796,  1797,  1798,  1799,  1800,  1801,  1802,  1803,  1804,  1805,
+    1806,  1807,  1808,  1809,  1810,  1811,  1812,  1813,  1814,  1815,
+    1816,  1817,  1818,  1819,  1820,  1821,  1822,  1823,  1824,  1825,
+    1826,  1827,  1828,  1829,  1830,  1831,  1832,  1833,  1834,  1835,
+    1836,  1837,  1838,  1839,  1840,  1841,  1842,  1843,  1844,  1845,
+    1846,  1847,  1848,  1849,  1850,  1851,  1852,  1853,  1854,  1855,
+    1856,  1857,  1858,  1859,  1860,  1861,  1862,  1863,  1864,  1865,
+    1866,  1867,  1868,  1869,  1870,  1871,  1872
   };
 
   void
@@ -11963,13 +12001,15 @@ namespace yy {
 namespace yy {
 
     asn1_parser::symbol_type yylex(Context& context_)
+    {
+    while (true)
     {
         const char* start = context_.cursor;
         const char* YYMARKER = nullptr;
         context_.location.step();
         // Lexer
 
-#line 11973 "asn_compiler.hpp"
+#line 12013 "asn_compiler.hpp"
 {
 	char yych;
 	unsigned int yyaccept = 0;
@@ -12069,25 +12109,25 @@ namespace yy {
 	}
 yy1:
 	++context_.cursor;
-#line 1970 "asn_compiler.yacc"
+#line 2012 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
-#line 12075 "asn_compiler.hpp"
+#line 12115 "asn_compiler.hpp"
 yy2:
 	++context_.cursor;
 yy3:
-#line 1996 "asn_compiler.yacc"
-	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
-#line 12081 "asn_compiler.hpp"
+#line 2038 "asn_compiler.yacc"
+	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
+#line 12121 "asn_compiler.hpp"
 yy4:
 	++context_.cursor;
-#line 1974 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
-#line 12086 "asn_compiler.hpp"
+#line 2016 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.location.columns(); continue; }
+#line 12126 "asn_compiler.hpp"
 yy5:
 	++context_.cursor;
-#line 1973 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-#line 12091 "asn_compiler.hpp"
+#line 2015 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.location.lines();   continue; }
+#line 12131 "asn_compiler.hpp"
 yy6:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12096,9 +12136,9 @@ yy6:
 	}
 yy7:
 	++context_.cursor;
-#line 1992 "asn_compiler.yacc"
+#line 2034 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCLAMATION_MARK (context_.location); }
-#line 12102 "asn_compiler.hpp"
+#line 12142 "asn_compiler.hpp"
 yy8:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12193,19 +12233,19 @@ yy10:
 	}
 yy11:
 	++context_.cursor;
-#line 1982 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-#line 12199 "asn_compiler.hpp"
+#line 2024 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.open(); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
+#line 12239 "asn_compiler.hpp"
 yy12:
 	++context_.cursor;
-#line 1983 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-#line 12204 "asn_compiler.hpp"
+#line 2025 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.close(); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
+#line 12244 "asn_compiler.hpp"
 yy13:
 	++context_.cursor;
-#line 1988 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-#line 12209 "asn_compiler.hpp"
+#line 2030 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.separate(); return asn1_parser::make_COMMA (context_.location); }
+#line 12249 "asn_compiler.hpp"
 yy14:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12223,9 +12263,9 @@ yy14:
 		default: goto yy15;
 	}
 yy15:
-#line 1989 "asn_compiler.yacc"
+#line 2031 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
-#line 12229 "asn_compiler.hpp"
+#line 12269 "asn_compiler.hpp"
 yy16:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12233,12 +12273,11 @@ yy16:
 		default: goto yy17;
 	}
 yy17:
-#line 1990 "asn_compiler.yacc"
+#line 2032 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
-#line 12239 "asn_compiler.hpp"
+#line 12279 "asn_compiler.hpp"
 yy18:
-	yyaccept = 0;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
 		case '*': goto yy75;
 		default: goto yy3;
@@ -12247,7 +12286,7 @@ yy19:
 	yyaccept = 1;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '.': goto yy76;
+		case '.': goto yy77;
 		case '0':
 		case '1':
 		case '2':
@@ -12261,102 +12300,102 @@ yy19:
 		default: goto yy20;
 	}
 yy20:
-#line 1956 "asn_compiler.yacc"
+#line 1998 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 12267 "asn_compiler.hpp"
+#line 12306 "asn_compiler.hpp"
 yy21:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case ':': goto yy77;
+		case ':': goto yy78;
 		default: goto yy22;
 	}
 yy22:
-#line 1986 "asn_compiler.yacc"
+#line 2028 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
-#line 12278 "asn_compiler.hpp"
+#line 12317 "asn_compiler.hpp"
 yy23:
 	++context_.cursor;
-#line 1987 "asn_compiler.yacc"
+#line 2029 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-#line 12283 "asn_compiler.hpp"
+#line 12322 "asn_compiler.hpp"
 yy24:
 	++context_.cursor;
-#line 1993 "asn_compiler.yacc"
+#line 2035 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-#line 12288 "asn_compiler.hpp"
+#line 12327 "asn_compiler.hpp"
 yy25:
 	++context_.cursor;
-#line 1995 "asn_compiler.yacc"
+#line 2037 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-#line 12293 "asn_compiler.hpp"
+#line 12332 "asn_compiler.hpp"
 yy26:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy79;
-		case 'L': goto yy80;
-		case 'N': goto yy81;
-		case 'P': goto yy82;
-		case 'U': goto yy83;
+		case 'B': goto yy80;
+		case 'L': goto yy81;
+		case 'N': goto yy82;
+		case 'P': goto yy83;
+		case 'U': goto yy84;
 		default: goto yy35;
 	}
 yy27:
-#line 1964 "asn_compiler.yacc"
+#line 2006 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12308 "asn_compiler.hpp"
+#line 12347 "asn_compiler.hpp"
 yy28:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy84;
-		case 'I': goto yy85;
-		case 'M': goto yy86;
-		case 'O': goto yy87;
-		case 'Y': goto yy88;
+		case 'E': goto yy85;
+		case 'I': goto yy86;
+		case 'M': goto yy87;
+		case 'O': goto yy88;
+		case 'Y': goto yy89;
 		default: goto yy35;
 	}
 yy29:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'H': goto yy90;
-		case 'L': goto yy91;
-		case 'O': goto yy92;
+		case 'H': goto yy91;
+		case 'L': goto yy92;
+		case 'O': goto yy93;
 		default: goto yy35;
 	}
 yy30:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy93;
-		case 'E': goto yy94;
-		case 'U': goto yy95;
+		case 'A': goto yy94;
+		case 'E': goto yy95;
+		case 'U': goto yy96;
 		default: goto yy35;
 	}
 yy31:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy96;
-		case 'N': goto yy97;
-		case 'X': goto yy98;
+		case 'M': goto yy97;
+		case 'N': goto yy98;
+		case 'X': goto yy99;
 		default: goto yy35;
 	}
 yy32:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy99;
-		case 'R': goto yy100;
+		case 'A': goto yy100;
+		case 'R': goto yy101;
 		default: goto yy35;
 	}
 yy33:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy101;
-		case 'r': goto yy102;
+		case 'e': goto yy102;
+		case 'r': goto yy103;
 		default: goto yy35;
 	}
 yy34:
@@ -12364,7 +12403,7 @@ yy34:
 	yych = *(YYMARKER = ++context_.cursor);
 yy35:
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -12434,125 +12473,125 @@ yy36:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy103;
-		case 'D': goto yy104;
-		case 'M': goto yy105;
-		case 'N': goto yy106;
-		case 'S': goto yy107;
+		case 'A': goto yy104;
+		case 'D': goto yy105;
+		case 'M': goto yy106;
+		case 'N': goto yy107;
+		case 'S': goto yy108;
 		default: goto yy35;
 	}
 yy37:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy108;
-		case 'I': goto yy109;
+		case 'A': goto yy109;
+		case 'I': goto yy110;
 		default: goto yy35;
 	}
 yy38:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy110;
-		case 'U': goto yy111;
-		case 'u': goto yy112;
+		case 'O': goto yy111;
+		case 'U': goto yy112;
+		case 'u': goto yy113;
 		default: goto yy35;
 	}
 yy39:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy113;
-		case 'C': goto yy114;
-		case 'F': goto yy115;
-		case 'I': goto yy117;
-		case 'P': goto yy118;
-		case 'b': goto yy119;
+		case 'B': goto yy114;
+		case 'C': goto yy115;
+		case 'F': goto yy116;
+		case 'I': goto yy118;
+		case 'P': goto yy119;
+		case 'b': goto yy120;
 		default: goto yy35;
 	}
 yy40:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy120;
-		case 'D': goto yy121;
-		case 'L': goto yy122;
-		case 'R': goto yy123;
-		case 'r': goto yy124;
+		case 'A': goto yy121;
+		case 'D': goto yy122;
+		case 'L': goto yy123;
+		case 'R': goto yy124;
+		case 'r': goto yy125;
 		default: goto yy35;
 	}
 yy41:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy125;
+		case 'E': goto yy126;
 		default: goto yy35;
 	}
 yy42:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy126;
-		case 'I': goto yy127;
-		case 'T': goto yy128;
-		case 'Y': goto yy129;
+		case 'E': goto yy127;
+		case 'I': goto yy128;
+		case 'T': goto yy129;
+		case 'Y': goto yy130;
 		default: goto yy35;
 	}
 yy43:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '6': goto yy130;
-		case 'A': goto yy131;
-		case 'I': goto yy132;
-		case 'R': goto yy133;
-		case 'Y': goto yy134;
-		case 'e': goto yy135;
+		case '6': goto yy131;
+		case 'A': goto yy132;
+		case 'I': goto yy133;
+		case 'R': goto yy134;
+		case 'Y': goto yy135;
+		case 'e': goto yy136;
 		default: goto yy35;
 	}
 yy44:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy136;
-		case 'T': goto yy137;
-		case 'n': goto yy138;
+		case 'N': goto yy137;
+		case 'T': goto yy138;
+		case 'n': goto yy139;
 		default: goto yy35;
 	}
 yy45:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy139;
+		case 'i': goto yy140;
 		default: goto yy35;
 	}
 yy46:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy140;
+		case 'I': goto yy141;
 		default: goto yy35;
 	}
 yy47:
 	++context_.cursor;
-#line 1984 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-#line 12541 "asn_compiler.hpp"
+#line 2026 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.open(); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
+#line 12580 "asn_compiler.hpp"
 yy48:
 	++context_.cursor;
-#line 1985 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-#line 12546 "asn_compiler.hpp"
+#line 2027 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.close(); context_.prefix(); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
+#line 12585 "asn_compiler.hpp"
 yy49:
 	++context_.cursor;
-#line 1994 "asn_compiler.yacc"
+#line 2036 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-#line 12551 "asn_compiler.hpp"
+#line 12590 "asn_compiler.hpp"
 yy50:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy141;
+		case '-': goto yy142;
 		case '0':
 		case '1':
 		case '2':
@@ -12619,24 +12658,24 @@ yy50:
 		default: goto yy51;
 	}
 yy51:
-#line 1965 "asn_compiler.yacc"
+#line 2007 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12625 "asn_compiler.hpp"
+#line 12664 "asn_compiler.hpp"
 yy52:
 	++context_.cursor;
-#line 1980 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-#line 12630 "asn_compiler.hpp"
+#line 2022 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.open(); return asn1_parser::make_OPEN_BRACE (context_.location); }
+#line 12669 "asn_compiler.hpp"
 yy53:
 	++context_.cursor;
-#line 1991 "asn_compiler.yacc"
+#line 2033 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-#line 12635 "asn_compiler.hpp"
+#line 12674 "asn_compiler.hpp"
 yy54:
 	++context_.cursor;
-#line 1981 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-#line 12640 "asn_compiler.hpp"
+#line 2023 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.close(); return asn1_parser::make_CLOSE_BRACE (context_.location); }
+#line 12679 "asn_compiler.hpp"
 yy55:
 	yych = *++context_.cursor;
 yy56:
@@ -12658,98 +12697,99 @@ yy57:
 		case 5: goto yy59;
 		case 6: goto yy63;
 		case 7: goto yy65;
-		case 8: goto yy89;
-		case 9: goto yy116;
-		case 10: goto yy157;
-		case 11: goto yy159;
-		case 12: goto yy164;
-		case 13: goto yy178;
-		case 14: goto yy195;
-		case 15: goto yy197;
-		case 16: goto yy208;
-		case 17: goto yy217;
-		case 18: goto yy250;
-		case 19: goto yy263;
-		case 20: goto yy277;
-		case 21: goto yy290;
-		case 22: goto yy295;
-		case 23: goto yy300;
-		case 24: goto yy302;
-		case 25: goto yy304;
-		case 26: goto yy316;
-		case 27: goto yy322;
-		case 28: goto yy328;
-		case 29: goto yy345;
-		case 30: goto yy363;
-		case 31: goto yy382;
-		case 32: goto yy391;
-		case 33: goto yy399;
-		case 34: goto yy412;
-		case 35: goto yy434;
-		case 36: goto yy447;
-		case 37: goto yy449;
-		case 38: goto yy455;
-		case 39: goto yy467;
-		case 40: goto yy474;
-		case 41: goto yy479;
-		case 42: goto yy484;
-		case 43: goto yy493;
-		case 44: goto yy495;
-		case 45: goto yy500;
-		case 46: goto yy507;
-		case 47: goto yy511;
+		case 8: goto yy76;
+		case 9: goto yy90;
+		case 10: goto yy117;
+		case 11: goto yy160;
+		case 12: goto yy162;
+		case 13: goto yy167;
+		case 14: goto yy181;
+		case 15: goto yy198;
+		case 16: goto yy200;
+		case 17: goto yy211;
+		case 18: goto yy220;
+		case 19: goto yy253;
+		case 20: goto yy266;
+		case 21: goto yy280;
+		case 22: goto yy293;
+		case 23: goto yy298;
+		case 24: goto yy303;
+		case 25: goto yy305;
+		case 26: goto yy307;
+		case 27: goto yy319;
+		case 28: goto yy325;
+		case 29: goto yy331;
+		case 30: goto yy348;
+		case 31: goto yy366;
+		case 32: goto yy385;
+		case 33: goto yy394;
+		case 34: goto yy402;
+		case 35: goto yy415;
+		case 36: goto yy437;
+		case 37: goto yy450;
+		case 38: goto yy452;
+		case 39: goto yy458;
+		case 40: goto yy470;
+		case 41: goto yy477;
+		case 42: goto yy482;
+		case 43: goto yy487;
+		case 44: goto yy496;
+		case 45: goto yy498;
+		case 46: goto yy503;
+		case 47: goto yy510;
 		case 48: goto yy514;
-		case 49: goto yy516;
-		case 50: goto yy527;
-		case 51: goto yy543;
-		case 52: goto yy545;
-		case 53: goto yy549;
+		case 49: goto yy517;
+		case 50: goto yy519;
+		case 51: goto yy530;
+		case 52: goto yy546;
+		case 53: goto yy548;
 		case 54: goto yy552;
-		case 55: goto yy559;
-		case 56: goto yy561;
-		case 57: goto yy563;
-		case 58: goto yy571;
-		case 59: goto yy577;
-		case 60: goto yy579;
-		case 61: goto yy592;
-		case 62: goto yy594;
-		case 63: goto yy596;
-		case 64: goto yy598;
-		case 65: goto yy602;
-		case 66: goto yy611;
-		case 67: goto yy624;
-		case 68: goto yy629;
-		case 69: goto yy637;
+		case 55: goto yy555;
+		case 56: goto yy562;
+		case 57: goto yy564;
+		case 58: goto yy566;
+		case 59: goto yy574;
+		case 60: goto yy580;
+		case 61: goto yy582;
+		case 62: goto yy595;
+		case 63: goto yy597;
+		case 64: goto yy599;
+		case 65: goto yy601;
+		case 66: goto yy605;
+		case 67: goto yy614;
+		case 68: goto yy627;
+		case 69: goto yy632;
 		case 70: goto yy640;
-		case 71: goto yy644;
-		case 72: goto yy650;
-		case 73: goto yy665;
-		case 74: goto yy671;
-		case 75: goto yy673;
-		case 76: goto yy675;
-		case 77: goto yy692;
-		case 78: goto yy705;
-		case 79: goto yy707;
-		case 80: goto yy709;
+		case 71: goto yy643;
+		case 72: goto yy647;
+		case 73: goto yy653;
+		case 74: goto yy668;
+		case 75: goto yy674;
+		case 76: goto yy676;
+		case 77: goto yy678;
+		case 78: goto yy695;
+		case 79: goto yy708;
+		case 80: goto yy710;
 		case 81: goto yy712;
-		case 82: goto yy718;
-		case 83: goto yy727;
-		case 84: goto yy729;
+		case 82: goto yy715;
+		case 83: goto yy721;
+		case 84: goto yy730;
 		case 85: goto yy732;
 		case 86: goto yy735;
 		case 87: goto yy738;
-		case 88: goto yy743;
-		case 89: goto yy747;
-		case 90: goto yy752;
-		case 91: goto yy759;
-		case 92: goto yy761;
+		case 88: goto yy741;
+		case 89: goto yy746;
+		case 90: goto yy750;
+		case 91: goto yy755;
+		case 92: goto yy762;
 		case 93: goto yy764;
 		case 94: goto yy767;
 		case 95: goto yy770;
-		case 96: goto yy772;
-		case 97: goto yy774;
-		case 98: goto yy776;
-		default: goto yy778;
+		case 96: goto yy773;
+		case 97: goto yy775;
+		case 98: goto yy777;
+		case 99: goto yy779;
+		default: goto yy781;
 	}
 yy58:
 	yyaccept = 5;
@@ -12759,9 +12799,9 @@ yy58:
 		default: goto yy59;
 	}
 yy59:
-#line 1959 "asn_compiler.yacc"
+#line 2001 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-#line 12765 "asn_compiler.hpp"
+#line 12805 "asn_compiler.hpp"
 yy60:
 	++context_.cursor;
 	goto yy59;
@@ -12769,8 +12809,8 @@ yy61:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case 0x00: goto yy57;
-		case '"': goto yy142;
-		case '\'': goto yy143;
+		case '"': goto yy143;
+		case '\'': goto yy144;
 		case '\\': goto yy61;
 		default: goto yy55;
 	}
@@ -12778,7 +12818,7 @@ yy62:
 	yyaccept = 6;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy144;
+		case '-': goto yy145;
 		case '0':
 		case '1':
 		case '2':
@@ -12845,14 +12885,14 @@ yy62:
 		default: goto yy63;
 	}
 yy63:
-#line 1966 "asn_compiler.yacc"
+#line 2008 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12851 "asn_compiler.hpp"
+#line 12891 "asn_compiler.hpp"
 yy64:
 	yyaccept = 7;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy145;
+		case '-': goto yy146;
 		case '0':
 		case '1':
 		case '2':
@@ -12919,14 +12959,14 @@ yy64:
 		default: goto yy65;
 	}
 yy65:
-#line 1967 "asn_compiler.yacc"
+#line 2009 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12925 "asn_compiler.hpp"
+#line 12965 "asn_compiler.hpp"
 yy66:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case 'B': goto yy146;
-		case 'H': goto yy147;
+		case 'B': goto yy147;
+		case 'H': goto yy148;
 		default: goto yy59;
 	}
 yy67:
@@ -12965,7 +13005,7 @@ yy68:
 	switch (yych) {
 		case 0x00: goto yy57;
 		case '"': goto yy58;
-		case '\'': goto yy148;
+		case '\'': goto yy149;
 		case '0':
 		case '1':
 		case '2':
@@ -12997,13 +13037,13 @@ yy69:
 		case 0x00:
 		case '\n':
 		case '\r': goto yy70;
-		case '-': goto yy149;
+		case '-': goto yy150;
 		default: goto yy69;
 	}
 yy70:
-#line 1950 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 13007 "asn_compiler.hpp"
+#line 1990 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); continue; }
+#line 13047 "asn_compiler.hpp"
 yy71:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13020,27 +13060,28 @@ yy71:
 		default: goto yy72;
 	}
 yy72:
-#line 1957 "asn_compiler.yacc"
+#line 1999 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 13026 "asn_compiler.hpp"
+#line 13066 "asn_compiler.hpp"
 yy73:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '.': goto yy150;
+		case '.': goto yy151;
 		default: goto yy74;
 	}
 yy74:
-#line 1979 "asn_compiler.yacc"
+#line 2021 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-#line 13036 "asn_compiler.hpp"
+#line 13076 "asn_compiler.hpp"
 yy75:
-	yych = *++context_.cursor;
-	switch (yych) {
-		case 0x00: goto yy57;
-		case '*': goto yy151;
-		default: goto yy75;
-	}
+	yyaccept = 8;
+	yych = *(YYMARKER = ++context_.cursor);
+	if (yych >= 0x01) goto yy153;
 yy76:
+#line 1994 "asn_compiler.yacc"
+	{ throw asn1_parser::syntax_error(context_.location, "comment is not closed"); }
+#line 13084 "asn_compiler.hpp"
+yy77:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13052,16 +13093,16 @@ yy76:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy152;
+		case '9': goto yy155;
 		default: goto yy57;
 	}
-yy77:
+yy78:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '=': goto yy154;
+		case '=': goto yy157;
 		default: goto yy57;
 	}
-yy78:
+yy79:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13129,74 +13170,74 @@ yy78:
 		case 'z': goto yy34;
 		default: goto yy57;
 	}
-yy79:
-	yyaccept = 3;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'S': goto yy155;
-		default: goto yy35;
-	}
 yy80:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy156;
+		case 'S': goto yy158;
 		default: goto yy35;
 	}
 yy81:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy158;
+		case 'L': goto yy159;
 		default: goto yy35;
 	}
 yy82:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy160;
+		case 'Y': goto yy161;
 		default: goto yy35;
 	}
 yy83:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy161;
+		case 'P': goto yy163;
 		default: goto yy35;
 	}
 yy84:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy162;
+		case 'T': goto yy164;
 		default: goto yy35;
 	}
 yy85:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy163;
+		case 'G': goto yy165;
 		default: goto yy35;
 	}
 yy86:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy165;
+		case 'T': goto yy166;
 		default: goto yy35;
 	}
 yy87:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy166;
+		case 'P': goto yy168;
 		default: goto yy35;
 	}
 yy88:
-	yyaccept = 8;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'O': goto yy169;
+		default: goto yy35;
+	}
+yy89:
+	yyaccept = 9;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -13260,200 +13301,200 @@ yy88:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy89;
+		default: goto yy90;
 	}
-yy89:
-#line 1863 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-#line 13269 "asn_compiler.hpp"
 yy90:
-	yyaccept = 3;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy167;
-		case 'O': goto yy168;
-		default: goto yy35;
-	}
+#line 1903 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
+#line 13310 "asn_compiler.hpp"
 yy91:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy169;
+		case 'A': goto yy170;
+		case 'O': goto yy171;
 		default: goto yy35;
 	}
 yy92:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy170;
-		case 'N': goto yy171;
+		case 'A': goto yy172;
 		default: goto yy35;
 	}
 yy93:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy172;
+		case 'M': goto yy173;
+		case 'N': goto yy174;
 		default: goto yy35;
 	}
 yy94:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy173;
+		case 'T': goto yy175;
 		default: goto yy35;
 	}
 yy95:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy174;
+		case 'F': goto yy176;
 		default: goto yy35;
 	}
 yy96:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy175;
+		case 'R': goto yy177;
 		default: goto yy35;
 	}
 yy97:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy176;
-		case 'D': goto yy177;
-		case 'U': goto yy179;
+		case 'B': goto yy178;
 		default: goto yy35;
 	}
 yy98:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy180;
-		case 'P': goto yy181;
-		case 'T': goto yy182;
+		case 'C': goto yy179;
+		case 'D': goto yy180;
+		case 'U': goto yy182;
 		default: goto yy35;
 	}
 yy99:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy183;
+		case 'C': goto yy183;
+		case 'P': goto yy184;
+		case 'T': goto yy185;
 		default: goto yy35;
 	}
 yy100:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy184;
+		case 'L': goto yy186;
 		default: goto yy35;
 	}
 yy101:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy185;
+		case 'O': goto yy187;
 		default: goto yy35;
 	}
 yy102:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy186;
+		case 'n': goto yy188;
 		default: goto yy35;
 	}
 yy103:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '5': goto yy187;
+		case 'a': goto yy189;
 		default: goto yy35;
 	}
 yy104:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy188;
+		case '5': goto yy190;
 		default: goto yy35;
 	}
 yy105:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy189;
+		case 'E': goto yy191;
 		default: goto yy35;
 	}
 yy106:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy190;
-		case 'S': goto yy191;
-		case 'T': goto yy192;
+		case 'P': goto yy192;
 		default: goto yy35;
 	}
 yy107:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy193;
+		case 'C': goto yy193;
+		case 'S': goto yy194;
+		case 'T': goto yy195;
 		default: goto yy35;
 	}
 yy108:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'X': goto yy194;
+		case 'O': goto yy196;
 		default: goto yy35;
 	}
 yy109:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy196;
+		case 'X': goto yy197;
 		default: goto yy35;
 	}
 yy110:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy198;
+		case 'N': goto yy199;
 		default: goto yy35;
 	}
 yy111:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy199;
+		case 'T': goto yy201;
 		default: goto yy35;
 	}
 yy112:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'm': goto yy200;
+		case 'L': goto yy202;
 		default: goto yy35;
 	}
 yy113:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'J': goto yy201;
+		case 'm': goto yy203;
 		default: goto yy35;
 	}
 yy114:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy202;
+		case 'J': goto yy204;
 		default: goto yy35;
 	}
 yy115:
-	yyaccept = 9;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy205;
+		default: goto yy35;
+	}
+yy116:
+	yyaccept = 10;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -13517,186 +13558,186 @@ yy115:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy116;
+		default: goto yy117;
 	}
-yy116:
-#line 1911 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-#line 13526 "asn_compiler.hpp"
 yy117:
-	yyaccept = 3;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'D': goto yy203;
-		default: goto yy35;
-	}
+#line 1951 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.prefix(); return asn1_parser::make_OF (context_.location); }
+#line 13567 "asn_compiler.hpp"
 yy118:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy204;
+		case 'D': goto yy206;
 		default: goto yy35;
 	}
 yy119:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'j': goto yy205;
+		case 'T': goto yy207;
 		default: goto yy35;
 	}
 yy120:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy206;
+		case 'j': goto yy208;
 		default: goto yy35;
 	}
 yy121:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'V': goto yy207;
+		case 'T': goto yy209;
 		default: goto yy35;
 	}
 yy122:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy209;
+		case 'V': goto yy210;
 		default: goto yy35;
 	}
 yy123:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy210;
-		case 'I': goto yy211;
+		case 'U': goto yy212;
 		default: goto yy35;
 	}
 yy124:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy212;
+		case 'E': goto yy213;
+		case 'I': goto yy214;
 		default: goto yy35;
 	}
 yy125:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy213;
-		case 'L': goto yy214;
+		case 'i': goto yy215;
 		default: goto yy35;
 	}
 yy126:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Q': goto yy215;
-		case 'T': goto yy216;
+		case 'A': goto yy216;
+		case 'L': goto yy217;
 		default: goto yy35;
 	}
 yy127:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Z': goto yy218;
+		case 'Q': goto yy218;
+		case 'T': goto yy219;
 		default: goto yy35;
 	}
 yy128:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy219;
+		case 'Z': goto yy221;
 		default: goto yy35;
 	}
 yy129:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy220;
+		case 'R': goto yy222;
 		default: goto yy35;
 	}
 yy130:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '1': goto yy221;
+		case 'N': goto yy223;
 		default: goto yy35;
 	}
 yy131:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy222;
+		case '1': goto yy224;
 		default: goto yy35;
 	}
 yy132:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy223;
+		case 'G': goto yy225;
 		default: goto yy35;
 	}
 yy133:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy224;
+		case 'M': goto yy226;
 		default: goto yy35;
 	}
 yy134:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy225;
+		case 'U': goto yy227;
 		default: goto yy35;
 	}
 yy135:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy226;
+		case 'P': goto yy228;
 		default: goto yy35;
 	}
 yy136:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy227;
+		case 'l': goto yy229;
 		default: goto yy35;
 	}
 yy137:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy228;
-		case 'F': goto yy229;
+		case 'I': goto yy230;
 		default: goto yy35;
 	}
 yy138:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy230;
+		case 'C': goto yy231;
+		case 'F': goto yy232;
 		default: goto yy35;
 	}
 yy139:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'd': goto yy231;
-		case 's': goto yy232;
+		case 'i': goto yy233;
 		default: goto yy35;
 	}
 yy140:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy233;
+		case 'd': goto yy234;
+		case 's': goto yy235;
 		default: goto yy35;
 	}
 yy141:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy236;
+		default: goto yy35;
+	}
+yy142:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13764,17 +13805,17 @@ yy141:
 		case 'z': goto yy50;
 		default: goto yy57;
 	}
-yy142:
+yy143:
 	yyaccept = 5;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 0x00: goto yy59;
-		case '"': goto yy142;
+		case '"': goto yy143;
 		case '\'': goto yy60;
 		case '\\': goto yy61;
 		default: goto yy55;
 	}
-yy143:
+yy144:
 	yyaccept = 5;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
@@ -13784,7 +13825,7 @@ yy143:
 		case '\\': goto yy61;
 		default: goto yy55;
 	}
-yy144:
+yy145:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13852,7 +13893,7 @@ yy144:
 		case 'z': goto yy62;
 		default: goto yy57;
 	}
-yy145:
+yy146:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13920,45 +13961,53 @@ yy145:
 		case 'z': goto yy64;
 		default: goto yy57;
 	}
-yy146:
+yy147:
 	++context_.cursor;
-#line 1961 "asn_compiler.yacc"
+#line 2003 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13928 "asn_compiler.hpp"
-yy147:
+#line 13969 "asn_compiler.hpp"
+yy148:
 	++context_.cursor;
-#line 1963 "asn_compiler.yacc"
+#line 2005 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13933 "asn_compiler.hpp"
-yy148:
+#line 13974 "asn_compiler.hpp"
+yy149:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case 'H': goto yy147;
+		case 'H': goto yy148;
 		default: goto yy59;
 	}
-yy149:
+yy150:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case 0x00:
 		case '\n':
 		case '\r': goto yy70;
-		case '-': goto yy234;
+		case '-': goto yy237;
 		default: goto yy69;
 	}
-yy150:
+yy151:
 	++context_.cursor;
-#line 1978 "asn_compiler.yacc"
+#line 2020 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-#line 13953 "asn_compiler.hpp"
-yy151:
+#line 13994 "asn_compiler.hpp"
+yy152:
+	yych = *++context_.cursor;
+yy153:
+	switch (yych) {
+		case 0x00: goto yy57;
+		case '*': goto yy154;
+		default: goto yy152;
+	}
+yy154:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case 0x00: goto yy57;
-		case '*': goto yy151;
-		case '/': goto yy235;
-		default: goto yy75;
+		case '*': goto yy154;
+		case '/': goto yy238;
+		default: goto yy152;
 	}
-yy152:
+yy155:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13970,31 +14019,31 @@ yy152:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy152;
-		default: goto yy153;
+		case '9': goto yy155;
+		default: goto yy156;
 	}
-yy153:
-#line 1955 "asn_compiler.yacc"
+yy156:
+#line 1997 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-#line 13980 "asn_compiler.hpp"
-yy154:
+#line 14029 "asn_compiler.hpp"
+yy157:
 	++context_.cursor;
-#line 1977 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-#line 13985 "asn_compiler.hpp"
-yy155:
+#line 2019 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.separate(); return asn1_parser::make_DEFINED_AS (context_.location); }
+#line 14034 "asn_compiler.hpp"
+yy158:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy236;
-		case 'T': goto yy237;
+		case 'E': goto yy239;
+		case 'T': goto yy240;
 		default: goto yy35;
 	}
-yy156:
-	yyaccept = 10;
+yy159:
+	yyaccept = 11;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14058,17 +14107,17 @@ yy156:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy157;
+		default: goto yy160;
 	}
-yy157:
-#line 1855 "asn_compiler.yacc"
+yy160:
+#line 1895 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-#line 14067 "asn_compiler.hpp"
-yy158:
-	yyaccept = 11;
+#line 14116 "asn_compiler.hpp"
+yy161:
+	yyaccept = 12;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14132,38 +14181,38 @@ yy158:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy159;
+		default: goto yy162;
 	}
-yy159:
-#line 1856 "asn_compiler.yacc"
+yy162:
+#line 1896 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-#line 14141 "asn_compiler.hpp"
-yy160:
+#line 14190 "asn_compiler.hpp"
+yy163:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy238;
+		case 'L': goto yy241;
 		default: goto yy35;
 	}
-yy161:
+yy164:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy239;
+		case 'O': goto yy242;
 		default: goto yy35;
 	}
-yy162:
+yy165:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy240;
+		case 'I': goto yy243;
 		default: goto yy35;
 	}
-yy163:
-	yyaccept = 12;
+yy166:
+	yyaccept = 13;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14227,103 +14276,103 @@ yy163:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy164;
+		default: goto yy167;
 	}
-yy164:
-#line 1860 "asn_compiler.yacc"
+yy167:
+#line 1900 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-#line 14236 "asn_compiler.hpp"
-yy165:
+#line 14285 "asn_compiler.hpp"
+yy168:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy241;
+		case 'S': goto yy244;
 		default: goto yy35;
 	}
-yy166:
+yy169:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy242;
+		case 'L': goto yy245;
 		default: goto yy35;
 	}
-yy167:
+yy170:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy243;
+		case 'R': goto yy246;
 		default: goto yy35;
 	}
-yy168:
+yy171:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy244;
+		case 'I': goto yy247;
 		default: goto yy35;
 	}
-yy169:
+yy172:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy245;
+		case 'S': goto yy248;
 		default: goto yy35;
 	}
-yy170:
+yy173:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy246;
+		case 'P': goto yy249;
 		default: goto yy35;
 	}
-yy171:
+yy174:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy247;
-		case 'T': goto yy248;
+		case 'S': goto yy250;
+		case 'T': goto yy251;
 		default: goto yy35;
 	}
-yy172:
+yy175:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy249;
+		case 'E': goto yy252;
 		default: goto yy35;
 	}
-yy173:
+yy176:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy251;
-		case 'I': goto yy252;
+		case 'A': goto yy254;
+		case 'I': goto yy255;
 		default: goto yy35;
 	}
-yy174:
+yy177:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy253;
+		case 'A': goto yy256;
 		default: goto yy35;
 	}
-yy175:
+yy178:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy254;
+		case 'E': goto yy257;
 		default: goto yy35;
 	}
-yy176:
+yy179:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy255;
+		case 'O': goto yy258;
 		default: goto yy35;
 	}
-yy177:
-	yyaccept = 13;
+yy180:
+	yyaccept = 14;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14387,124 +14436,124 @@ yy177:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy178;
+		default: goto yy181;
 	}
-yy178:
-#line 1879 "asn_compiler.yacc"
+yy181:
+#line 1919 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-#line 14396 "asn_compiler.hpp"
-yy179:
+#line 14445 "asn_compiler.hpp"
+yy182:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy256;
+		case 'M': goto yy259;
 		default: goto yy35;
 	}
-yy180:
+yy183:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy257;
+		case 'E': goto yy260;
 		default: goto yy35;
 	}
-yy181:
+yy184:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy258;
-		case 'O': goto yy259;
+		case 'L': goto yy261;
+		case 'O': goto yy262;
 		default: goto yy35;
 	}
-yy182:
+yy185:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy260;
+		case 'E': goto yy263;
 		default: goto yy35;
 	}
-yy183:
+yy186:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy261;
+		case 'S': goto yy264;
 		default: goto yy35;
 	}
-yy184:
+yy187:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy262;
+		case 'M': goto yy265;
 		default: goto yy35;
 	}
-yy185:
+yy188:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy264;
+		case 'e': goto yy267;
 		default: goto yy35;
 	}
-yy186:
+yy189:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'p': goto yy265;
+		case 'p': goto yy268;
 		default: goto yy35;
 	}
-yy187:
+yy190:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy266;
+		case 'S': goto yy269;
 		default: goto yy35;
 	}
-yy188:
+yy191:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy267;
+		case 'N': goto yy270;
 		default: goto yy35;
 	}
-yy189:
+yy192:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy268;
-		case 'O': goto yy269;
+		case 'L': goto yy271;
+		case 'O': goto yy272;
 		default: goto yy35;
 	}
-yy190:
+yy193:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy270;
+		case 'L': goto yy273;
 		default: goto yy35;
 	}
-yy191:
+yy194:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy271;
+		case 'T': goto yy274;
 		default: goto yy35;
 	}
-yy192:
+yy195:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy272;
+		case 'E': goto yy275;
 		default: goto yy35;
 	}
-yy193:
+yy196:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '6': goto yy273;
+		case '6': goto yy276;
 		default: goto yy35;
 	}
-yy194:
-	yyaccept = 14;
+yy197:
+	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14568,17 +14617,17 @@ yy194:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy195;
+		default: goto yy198;
 	}
-yy195:
-#line 1902 "asn_compiler.yacc"
+yy198:
+#line 1942 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-#line 14577 "asn_compiler.hpp"
-yy196:
-	yyaccept = 15;
+#line 14626 "asn_compiler.hpp"
+yy199:
+	yyaccept = 16;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14641,81 +14690,81 @@ yy196:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'U': goto yy274;
-		default: goto yy197;
+		case 'U': goto yy277;
+		default: goto yy200;
 	}
-yy197:
-#line 1903 "asn_compiler.yacc"
+yy200:
+#line 1943 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-#line 14651 "asn_compiler.hpp"
-yy198:
+#line 14700 "asn_compiler.hpp"
+yy201:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy275;
+		case '-': goto yy278;
 		default: goto yy35;
 	}
-yy199:
+yy202:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy276;
+		case 'L': goto yy279;
 		default: goto yy35;
 	}
-yy200:
+yy203:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy278;
+		case 'e': goto yy281;
 		default: goto yy35;
 	}
-yy201:
+yy204:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy279;
+		case 'E': goto yy282;
 		default: goto yy35;
 	}
-yy202:
+yy205:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy280;
+		case 'E': goto yy283;
 		default: goto yy35;
 	}
-yy203:
+yy206:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '_': goto yy281;
+		case '_': goto yy284;
 		default: goto yy35;
 	}
-yy204:
+yy207:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy282;
+		case 'I': goto yy285;
 		default: goto yy35;
 	}
-yy205:
+yy208:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy283;
+		case 'e': goto yy286;
 		default: goto yy35;
 	}
-yy206:
+yy209:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy284;
+		case 'T': goto yy287;
 		default: goto yy35;
 	}
-yy207:
-	yyaccept = 16;
+yy210:
+	yyaccept = 17;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14779,66 +14828,66 @@ yy207:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy208;
+		default: goto yy211;
 	}
-yy208:
-#line 1915 "asn_compiler.yacc"
+yy211:
+#line 1955 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-#line 14788 "asn_compiler.hpp"
-yy209:
+#line 14837 "asn_compiler.hpp"
+yy212:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy285;
+		case 'S': goto yy288;
 		default: goto yy35;
 	}
-yy210:
+yy213:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy286;
+		case 'S': goto yy289;
 		default: goto yy35;
 	}
-yy211:
+yy214:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'V': goto yy287;
+		case 'V': goto yy290;
 		default: goto yy35;
 	}
-yy212:
+yy215:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy288;
+		case 'n': goto yy291;
 		default: goto yy35;
 	}
-yy213:
+yy216:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy289;
+		case 'L': goto yy292;
 		default: goto yy35;
 	}
-yy214:
+yy217:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy291;
+		case 'A': goto yy294;
 		default: goto yy35;
 	}
-yy215:
+yy218:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy292;
+		case 'U': goto yy295;
 		default: goto yy35;
 	}
-yy216:
-	yyaccept = 17;
+yy219:
+	yyaccept = 18;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14901,233 +14950,233 @@ yy216:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'T': goto yy293;
-		default: goto yy217;
-	}
-yy217:
-#line 1924 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-#line 14911 "asn_compiler.hpp"
-yy218:
-	yyaccept = 3;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'E': goto yy294;
-		default: goto yy35;
-	}
-yy219:
-	yyaccept = 3;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'I': goto yy296;
-		default: goto yy35;
+		case 'T': goto yy296;
+		default: goto yy220;
 	}
 yy220:
-	yyaccept = 3;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'T': goto yy297;
-		default: goto yy35;
-	}
+#line 1964 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
+#line 14960 "asn_compiler.hpp"
 yy221:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy298;
+		case 'E': goto yy297;
 		default: goto yy35;
 	}
 yy222:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy299;
+		case 'I': goto yy299;
 		default: goto yy35;
 	}
 yy223:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy301;
+		case 'T': goto yy300;
 		default: goto yy35;
 	}
 yy224:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy303;
+		case 'S': goto yy301;
 		default: goto yy35;
 	}
 yy225:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy305;
+		case 'S': goto yy302;
 		default: goto yy35;
 	}
 yy226:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy306;
+		case 'E': goto yy304;
 		default: goto yy35;
 	}
 yy227:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy307;
-		case 'Q': goto yy308;
-		case 'V': goto yy309;
+		case 'E': goto yy306;
 		default: goto yy35;
 	}
 yy228:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy310;
+		case 'E': goto yy308;
 		default: goto yy35;
 	}
 yy229:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '8': goto yy311;
+		case 'e': goto yy309;
 		default: goto yy35;
 	}
 yy230:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'v': goto yy312;
+		case 'O': goto yy310;
+		case 'Q': goto yy311;
+		case 'V': goto yy312;
 		default: goto yy35;
 	}
 yy231:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy313;
+		case 'T': goto yy313;
 		default: goto yy35;
 	}
 yy232:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy314;
+		case '8': goto yy314;
 		default: goto yy35;
 	}
 yy233:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'H': goto yy315;
+		case 'v': goto yy315;
 		default: goto yy35;
 	}
 yy234:
-	++context_.cursor;
-#line 1948 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 15030 "asn_compiler.hpp"
-yy235:
-	++context_.cursor;
-#line 1952 "asn_compiler.yacc"
-	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
-#line 15035 "asn_compiler.hpp"
-yy236:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy317;
+		case 'e': goto yy316;
 		default: goto yy35;
 	}
-yy237:
+yy235:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy318;
+		case 'i': goto yy317;
 		default: goto yy35;
 	}
-yy238:
+yy236:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy319;
+		case 'H': goto yy318;
 		default: goto yy35;
 	}
+yy237:
+	++context_.cursor;
+#line 1988 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); continue; }
+#line 15079 "asn_compiler.hpp"
+yy238:
+	++context_.cursor;
+#line 1992 "asn_compiler.yacc"
+	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
+#line 15084 "asn_compiler.hpp"
 yy239:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy320;
+		case 'N': goto yy320;
 		default: goto yy35;
 	}
 yy240:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy321;
+		case 'R': goto yy321;
 		default: goto yy35;
 	}
 yy241:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy323;
+		case 'I': goto yy322;
 		default: goto yy35;
 	}
 yy242:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy324;
+		case 'M': goto yy323;
 		default: goto yy35;
 	}
 yy243:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy325;
+		case 'N': goto yy324;
 		default: goto yy35;
 	}
 yy244:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy326;
+		case 't': goto yy326;
 		default: goto yy35;
 	}
 yy245:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy327;
+		case 'E': goto yy327;
 		default: goto yy35;
 	}
 yy246:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy329;
+		case 'A': goto yy328;
 		default: goto yy35;
 	}
 yy247:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy330;
+		case 'C': goto yy329;
 		default: goto yy35;
 	}
 yy248:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy331;
+		case 'S': goto yy330;
 		default: goto yy35;
 	}
 yy249:
-	yyaccept = 18;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy332;
+		case 'O': goto yy332;
+		default: goto yy35;
+	}
+yy250:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy333;
+		default: goto yy35;
+	}
+yy251:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy334;
+		default: goto yy35;
+	}
+yy252:
+	yyaccept = 19;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy335;
 		case '0':
 		case '1':
 		case '2':
@@ -15191,95 +15240,95 @@ yy249:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy250;
+		default: goto yy253;
 	}
-yy250:
-#line 1871 "asn_compiler.yacc"
+yy253:
+#line 1911 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-#line 15200 "asn_compiler.hpp"
-yy251:
+#line 15249 "asn_compiler.hpp"
+yy254:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy333;
+		case 'U': goto yy336;
 		default: goto yy35;
 	}
-yy252:
+yy255:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy334;
+		case 'N': goto yy337;
 		default: goto yy35;
 	}
-yy253:
+yy256:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy335;
+		case 'T': goto yy338;
 		default: goto yy35;
 	}
-yy254:
+yy257:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy336;
+		case 'D': goto yy339;
 		default: goto yy35;
 	}
-yy255:
+yy258:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy337;
+		case 'D': goto yy340;
 		default: goto yy35;
 	}
-yy256:
+yy259:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy338;
+		case 'E': goto yy341;
 		default: goto yy35;
 	}
-yy257:
+yy260:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy339;
+		case 'P': goto yy342;
 		default: goto yy35;
 	}
-yy258:
+yy261:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy340;
+		case 'I': goto yy343;
 		default: goto yy35;
 	}
-yy259:
+yy262:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy341;
+		case 'R': goto yy344;
 		default: goto yy35;
 	}
-yy260:
+yy263:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy342;
-		case 'R': goto yy343;
+		case 'N': goto yy345;
+		case 'R': goto yy346;
 		default: goto yy35;
 	}
-yy261:
+yy264:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy344;
+		case 'E': goto yy347;
 		default: goto yy35;
 	}
-yy262:
-	yyaccept = 19;
+yy265:
+	yyaccept = 20;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15343,92 +15392,92 @@ yy262:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy263;
+		default: goto yy266;
 	}
-yy263:
-#line 1887 "asn_compiler.yacc"
+yy266:
+#line 1927 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-#line 15352 "asn_compiler.hpp"
-yy264:
+#line 15401 "asn_compiler.hpp"
+yy267:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy346;
+		case 'r': goto yy349;
 		default: goto yy35;
 	}
-yy265:
+yy268:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'h': goto yy347;
+		case 'h': goto yy350;
 		default: goto yy35;
 	}
-yy266:
+yy269:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy348;
+		case 't': goto yy351;
 		default: goto yy35;
 	}
-yy267:
+yy270:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy349;
+		case 'T': goto yy352;
 		default: goto yy35;
 	}
-yy268:
+yy271:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy350;
+		case 'I': goto yy353;
 		default: goto yy35;
 	}
-yy269:
+yy272:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy351;
+		case 'R': goto yy354;
 		default: goto yy35;
 	}
-yy270:
+yy273:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy352;
+		case 'U': goto yy355;
 		default: goto yy35;
 	}
-yy271:
+yy274:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy353;
-		case 'R': goto yy354;
+		case 'A': goto yy356;
+		case 'R': goto yy357;
 		default: goto yy35;
 	}
-yy272:
+yy275:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy355;
-		case 'R': goto yy356;
+		case 'G': goto yy358;
+		case 'R': goto yy359;
 		default: goto yy35;
 	}
-yy273:
+yy276:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '4': goto yy357;
+		case '4': goto yy360;
 		default: goto yy35;
 	}
-yy274:
+yy277:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy358;
+		case 'S': goto yy361;
 		default: goto yy35;
 	}
-yy275:
+yy278:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -15493,14 +15542,14 @@ yy275:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'A': goto yy359;
+		case 'A': goto yy362;
 		default: goto yy57;
 	}
-yy276:
-	yyaccept = 20;
+yy279:
+	yyaccept = 21;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15564,94 +15613,94 @@ yy276:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy277;
+		default: goto yy280;
 	}
-yy277:
-#line 1906 "asn_compiler.yacc"
+yy280:
+#line 1946 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-#line 15573 "asn_compiler.hpp"
-yy278:
+#line 15622 "asn_compiler.hpp"
+yy281:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy360;
+		case 'r': goto yy363;
 		default: goto yy35;
 	}
-yy279:
+yy282:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy361;
+		case 'C': goto yy364;
 		default: goto yy35;
 	}
-yy280:
+yy283:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy362;
+		case 'T': goto yy365;
 		default: goto yy35;
 	}
-yy281:
+yy284:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy364;
+		case 'I': goto yy367;
 		default: goto yy35;
 	}
-yy282:
+yy285:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy365;
+		case 'O': goto yy368;
 		default: goto yy35;
 	}
-yy283:
+yy286:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy366;
+		case 'c': goto yy369;
 		default: goto yy35;
 	}
-yy284:
+yy287:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy367;
+		case 'E': goto yy370;
 		default: goto yy35;
 	}
-yy285:
+yy288:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '_': goto yy368;
+		case '_': goto yy371;
 		default: goto yy35;
 	}
-yy286:
+yy289:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy369;
+		case 'E': goto yy372;
 		default: goto yy35;
 	}
-yy287:
+yy290:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy370;
+		case 'A': goto yy373;
 		default: goto yy35;
 	}
-yy288:
+yy291:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy371;
+		case 't': goto yy374;
 		default: goto yy35;
 	}
-yy289:
-	yyaccept = 21;
+yy292:
+	yyaccept = 22;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15715,38 +15764,38 @@ yy289:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy290;
+		default: goto yy293;
 	}
-yy290:
-#line 1920 "asn_compiler.yacc"
+yy293:
+#line 1960 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-#line 15724 "asn_compiler.hpp"
-yy291:
+#line 15773 "asn_compiler.hpp"
+yy294:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy372;
+		case 'T': goto yy375;
 		default: goto yy35;
 	}
-yy292:
+yy295:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy373;
+		case 'E': goto yy376;
 		default: goto yy35;
 	}
-yy293:
+yy296:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy374;
+		case 'I': goto yy377;
 		default: goto yy35;
 	}
-yy294:
-	yyaccept = 22;
+yy297:
+	yyaccept = 23;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15810,38 +15859,38 @@ yy294:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy295;
+		default: goto yy298;
 	}
-yy295:
-#line 1926 "asn_compiler.yacc"
+yy298:
+#line 1966 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-#line 15819 "asn_compiler.hpp"
-yy296:
+#line 15868 "asn_compiler.hpp"
+yy299:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy375;
+		case 'N': goto yy378;
 		default: goto yy35;
 	}
-yy297:
+yy300:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy376;
+		case 'A': goto yy379;
 		default: goto yy35;
 	}
-yy298:
+yy301:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy377;
+		case 't': goto yy380;
 		default: goto yy35;
 	}
-yy299:
-	yyaccept = 23;
+yy302:
+	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15905,17 +15954,17 @@ yy299:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy300;
+		default: goto yy303;
 	}
-yy300:
-#line 1930 "asn_compiler.yacc"
+yy303:
+#line 1970 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-#line 15914 "asn_compiler.hpp"
-yy301:
-	yyaccept = 24;
+#line 15963 "asn_compiler.hpp"
+yy304:
+	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy378;
+		case '-': goto yy381;
 		case '0':
 		case '1':
 		case '2':
@@ -15979,17 +16028,17 @@ yy301:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy302;
+		default: goto yy305;
 	}
-yy302:
-#line 1932 "asn_compiler.yacc"
+yy305:
+#line 1972 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-#line 15988 "asn_compiler.hpp"
-yy303:
-	yyaccept = 25;
+#line 16037 "asn_compiler.hpp"
+yy306:
+	yyaccept = 26;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16053,87 +16102,87 @@ yy303:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy304;
+		default: goto yy307;
 	}
-yy304:
-#line 1934 "asn_compiler.yacc"
+yy307:
+#line 1974 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-#line 16062 "asn_compiler.hpp"
-yy305:
+#line 16111 "asn_compiler.hpp"
+yy308:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy379;
+		case '-': goto yy382;
 		default: goto yy35;
 	}
-yy306:
+yy309:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy380;
+		case 't': goto yy383;
 		default: goto yy35;
 	}
-yy307:
+yy310:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy381;
+		case 'N': goto yy384;
 		default: goto yy35;
 	}
-yy308:
+yy311:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy383;
+		case 'U': goto yy386;
 		default: goto yy35;
 	}
-yy309:
+yy312:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy384;
+		case 'E': goto yy387;
 		default: goto yy35;
 	}
-yy310:
+yy313:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy385;
+		case 'i': goto yy388;
 		default: goto yy35;
 	}
-yy311:
+yy314:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy386;
+		case 'S': goto yy389;
 		default: goto yy35;
 	}
-yy312:
+yy315:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy387;
+		case 'e': goto yy390;
 		default: goto yy35;
 	}
-yy313:
+yy316:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'o': goto yy388;
+		case 'o': goto yy391;
 		default: goto yy35;
 	}
-yy314:
+yy317:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'b': goto yy389;
+		case 'b': goto yy392;
 		default: goto yy35;
 	}
-yy315:
-	yyaccept = 26;
+yy318:
+	yyaccept = 27;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16197,45 +16246,45 @@ yy315:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy316;
+		default: goto yy319;
 	}
-yy316:
-#line 1944 "asn_compiler.yacc"
+yy319:
+#line 1984 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-#line 16206 "asn_compiler.hpp"
-yy317:
+#line 16255 "asn_compiler.hpp"
+yy320:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy390;
+		case 'T': goto yy393;
 		default: goto yy35;
 	}
-yy318:
+yy321:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy392;
+		case 'A': goto yy395;
 		default: goto yy35;
 	}
-yy319:
+yy322:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy393;
+		case 'C': goto yy396;
 		default: goto yy35;
 	}
-yy320:
+yy323:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy394;
+		case 'A': goto yy397;
 		default: goto yy35;
 	}
-yy321:
-	yyaccept = 27;
+yy324:
+	yyaccept = 28;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16299,45 +16348,45 @@ yy321:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy322;
+		default: goto yy325;
 	}
-yy322:
-#line 1859 "asn_compiler.yacc"
+yy325:
+#line 1899 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-#line 16308 "asn_compiler.hpp"
-yy323:
+#line 16357 "asn_compiler.hpp"
+yy326:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy395;
+		case 'r': goto yy398;
 		default: goto yy35;
 	}
-yy324:
+yy327:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy396;
+		case 'A': goto yy399;
 		default: goto yy35;
 	}
-yy325:
+yy328:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy397;
+		case 'C': goto yy400;
 		default: goto yy35;
 	}
-yy326:
+yy329:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy398;
+		case 'E': goto yy401;
 		default: goto yy35;
 	}
-yy327:
-	yyaccept = 28;
+yy330:
+	yyaccept = 29;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16401,34 +16450,34 @@ yy327:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy328;
+		default: goto yy331;
 	}
-yy328:
-#line 1866 "asn_compiler.yacc"
+yy331:
+#line 1906 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-#line 16410 "asn_compiler.hpp"
-yy329:
+#line 16459 "asn_compiler.hpp"
+yy332:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy400;
+		case 'N': goto yy403;
 		default: goto yy35;
 	}
-yy330:
+yy333:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy401;
+		case 'R': goto yy404;
 		default: goto yy35;
 	}
-yy331:
+yy334:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy402;
+		case 'I': goto yy405;
 		default: goto yy35;
 	}
-yy332:
+yy335:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -16493,92 +16542,92 @@ yy332:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'T': goto yy403;
+		case 'T': goto yy406;
 		default: goto yy57;
 	}
-yy333:
+yy336:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy404;
+		case 'L': goto yy407;
 		default: goto yy35;
 	}
-yy334:
+yy337:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy405;
+		case 'I': goto yy408;
 		default: goto yy35;
 	}
-yy335:
+yy338:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy406;
+		case 'I': goto yy409;
 		default: goto yy35;
 	}
-yy336:
+yy339:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy407;
+		case 'D': goto yy410;
 		default: goto yy35;
 	}
-yy337:
+yy340:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy408;
-		case 'I': goto yy409;
+		case 'E': goto yy411;
+		case 'I': goto yy412;
 		default: goto yy35;
 	}
-yy338:
+yy341:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy410;
+		case 'R': goto yy413;
 		default: goto yy35;
 	}
-yy339:
+yy342:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy411;
+		case 'T': goto yy414;
 		default: goto yy35;
 	}
-yy340:
+yy343:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy413;
+		case 'C': goto yy416;
 		default: goto yy35;
 	}
-yy341:
+yy344:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy414;
+		case 'T': goto yy417;
 		default: goto yy35;
 	}
-yy342:
+yy345:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy415;
+		case 'S': goto yy418;
 		default: goto yy35;
 	}
-yy343:
+yy346:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy416;
+		case 'N': goto yy419;
 		default: goto yy35;
 	}
-yy344:
-	yyaccept = 29;
+yy347:
+	yyaccept = 30;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16642,130 +16691,130 @@ yy344:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy345;
+		default: goto yy348;
 	}
-yy345:
-#line 1886 "asn_compiler.yacc"
+yy348:
+#line 1926 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-#line 16651 "asn_compiler.hpp"
-yy346:
+#line 16700 "asn_compiler.hpp"
+yy349:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy417;
+		case 'a': goto yy420;
 		default: goto yy35;
 	}
-yy347:
+yy350:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy418;
+		case 'i': goto yy421;
 		default: goto yy35;
 	}
-yy348:
+yy351:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy419;
+		case 'r': goto yy422;
 		default: goto yy35;
 	}
-yy349:
+yy352:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy420;
+		case 'I': goto yy423;
 		default: goto yy35;
 	}
-yy350:
+yy353:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy421;
-		case 'E': goto yy422;
+		case 'C': goto yy424;
+		case 'E': goto yy425;
 		default: goto yy35;
 	}
-yy351:
+yy354:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy423;
+		case 'T': goto yy426;
 		default: goto yy35;
 	}
-yy352:
+yy355:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy424;
+		case 'D': goto yy427;
 		default: goto yy35;
 	}
-yy353:
+yy356:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy425;
+		case 'N': goto yy428;
 		default: goto yy35;
 	}
-yy354:
+yy357:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy426;
+		case 'U': goto yy429;
 		default: goto yy35;
 	}
-yy355:
+yy358:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy427;
+		case 'E': goto yy430;
 		default: goto yy35;
 	}
-yy356:
+yy359:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy428;
+		case 'S': goto yy431;
 		default: goto yy35;
 	}
-yy357:
+yy360:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '6': goto yy429;
+		case '6': goto yy432;
 		default: goto yy35;
 	}
-yy358:
+yy361:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy430;
+		case '-': goto yy433;
 		default: goto yy35;
 	}
-yy359:
+yy362:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy431;
+		case '-': goto yy434;
 		default: goto yy35;
 	}
-yy360:
+yy363:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy432;
+		case 'i': goto yy435;
 		default: goto yy35;
 	}
-yy361:
+yy364:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy433;
+		case 'T': goto yy436;
 		default: goto yy35;
 	}
-yy362:
-	yyaccept = 30;
+yy365:
+	yyaccept = 31;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16829,111 +16878,111 @@ yy362:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy363;
+		default: goto yy366;
 	}
-yy363:
-#line 1910 "asn_compiler.yacc"
+yy366:
+#line 1950 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-#line 16838 "asn_compiler.hpp"
-yy364:
+#line 16887 "asn_compiler.hpp"
+yy367:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy435;
+		case 'R': goto yy438;
 		default: goto yy35;
 	}
-yy365:
+yy368:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy436;
+		case 'N': goto yy439;
 		default: goto yy35;
 	}
-yy366:
+yy369:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy437;
+		case 't': goto yy440;
 		default: goto yy35;
 	}
-yy367:
+yy370:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy438;
+		case 'R': goto yy441;
 		default: goto yy35;
 	}
-yy368:
+yy371:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy439;
+		case 'I': goto yy442;
 		default: goto yy35;
 	}
-yy369:
+yy372:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy440;
+		case 'N': goto yy443;
 		default: goto yy35;
 	}
-yy370:
+yy373:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy441;
+		case 'T': goto yy444;
 		default: goto yy35;
 	}
-yy371:
+yy374:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy442;
+		case 'a': goto yy445;
 		default: goto yy35;
 	}
-yy372:
+yy375:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy443;
+		case 'I': goto yy446;
 		default: goto yy35;
 	}
-yy373:
+yy376:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy444;
+		case 'N': goto yy447;
 		default: goto yy35;
 	}
-yy374:
+yy377:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy445;
+		case 'N': goto yy448;
 		default: goto yy35;
 	}
-yy375:
+yy378:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy446;
+		case 'G': goto yy449;
 		default: goto yy35;
 	}
-yy376:
+yy379:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'X': goto yy448;
+		case 'X': goto yy451;
 		default: goto yy35;
 	}
-yy377:
+yy380:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy450;
+		case 'r': goto yy453;
 		default: goto yy35;
 	}
-yy378:
+yy381:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -16998,10 +17047,10 @@ yy378:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'O': goto yy451;
+		case 'O': goto yy454;
 		default: goto yy57;
 	}
-yy379:
+yy382:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -17066,21 +17115,21 @@ yy379:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'I': goto yy452;
+		case 'I': goto yy455;
 		default: goto yy57;
 	}
-yy380:
+yy383:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy453;
+		case 'e': goto yy456;
 		default: goto yy35;
 	}
-yy381:
-	yyaccept = 31;
+yy384:
+	yyaccept = 32;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17144,66 +17193,66 @@ yy381:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy382;
+		default: goto yy385;
 	}
-yy382:
-#line 1936 "asn_compiler.yacc"
+yy385:
+#line 1976 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-#line 17153 "asn_compiler.hpp"
-yy383:
+#line 17202 "asn_compiler.hpp"
+yy386:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy454;
+		case 'E': goto yy457;
 		default: goto yy35;
 	}
-yy384:
+yy387:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy456;
+		case 'R': goto yy459;
 		default: goto yy35;
 	}
-yy385:
+yy388:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'm': goto yy457;
+		case 'm': goto yy460;
 		default: goto yy35;
 	}
-yy386:
+yy389:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy458;
+		case 't': goto yy461;
 		default: goto yy35;
 	}
-yy387:
+yy390:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy459;
+		case 'r': goto yy462;
 		default: goto yy35;
 	}
-yy388:
+yy391:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy460;
+		case 't': goto yy463;
 		default: goto yy35;
 	}
-yy389:
+yy392:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy461;
+		case 'l': goto yy464;
 		default: goto yy35;
 	}
-yy390:
-	yyaccept = 32;
+yy393:
+	yyaccept = 33;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17267,59 +17316,59 @@ yy390:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy391;
+		default: goto yy394;
 	}
-yy391:
-#line 1853 "asn_compiler.yacc"
+yy394:
+#line 1893 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-#line 17276 "asn_compiler.hpp"
-yy392:
+#line 17325 "asn_compiler.hpp"
+yy395:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy462;
+		case 'C': goto yy465;
 		default: goto yy35;
 	}
-yy393:
+yy396:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy463;
+		case 'A': goto yy466;
 		default: goto yy35;
 	}
-yy394:
+yy397:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy464;
+		case 'T': goto yy467;
 		default: goto yy35;
 	}
-yy395:
+yy398:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy465;
+		case 'i': goto yy468;
 		default: goto yy35;
 	}
-yy396:
+yy399:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy466;
+		case 'N': goto yy469;
 		default: goto yy35;
 	}
-yy397:
+yy400:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy468;
+		case 'T': goto yy471;
 		default: goto yy35;
 	}
-yy398:
-	yyaccept = 33;
+yy401:
+	yyaccept = 34;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17383,94 +17432,94 @@ yy398:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy399;
+		default: goto yy402;
 	}
-yy399:
-#line 1865 "asn_compiler.yacc"
+yy402:
+#line 1905 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-#line 17392 "asn_compiler.hpp"
-yy400:
+#line 17441 "asn_compiler.hpp"
+yy403:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy469;
+		case 'E': goto yy472;
 		default: goto yy35;
 	}
-yy401:
+yy404:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy470;
+		case 'A': goto yy473;
 		default: goto yy35;
 	}
-yy402:
+yy405:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy471;
+		case 'N': goto yy474;
 		default: goto yy35;
 	}
-yy403:
+yy406:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy472;
+		case 'I': goto yy475;
 		default: goto yy35;
 	}
-yy404:
+yy407:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy473;
+		case 'T': goto yy476;
 		default: goto yy35;
 	}
-yy405:
+yy408:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy475;
+		case 'T': goto yy478;
 		default: goto yy35;
 	}
-yy406:
+yy409:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy476;
+		case 'O': goto yy479;
 		default: goto yy35;
 	}
-yy407:
+yy410:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy477;
+		case 'E': goto yy480;
 		default: goto yy35;
 	}
-yy408:
+yy411:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy478;
+		case 'D': goto yy481;
 		default: goto yy35;
 	}
-yy409:
+yy412:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy480;
+		case 'N': goto yy483;
 		default: goto yy35;
 	}
-yy410:
+yy413:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy481;
+		case 'A': goto yy484;
 		default: goto yy35;
 	}
-yy411:
-	yyaccept = 34;
+yy414:
+	yyaccept = 35;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17534,132 +17583,132 @@ yy411:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy412;
-	}
-yy412:
-#line 1881 "asn_compiler.yacc"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-#line 17543 "asn_compiler.hpp"
-yy413:
-	yyaccept = 3;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'I': goto yy482;
-		default: goto yy35;
-	}
-yy414:
-	yyaccept = 3;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'S': goto yy483;
-		default: goto yy35;
+		default: goto yy415;
 	}
 yy415:
-	yyaccept = 3;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'I': goto yy485;
-		default: goto yy35;
-	}
+#line 1921 "asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
+#line 17592 "asn_compiler.hpp"
 yy416:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy486;
+		case 'I': goto yy485;
 		default: goto yy35;
 	}
 yy417:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy487;
+		case 'S': goto yy486;
 		default: goto yy35;
 	}
 yy418:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy488;
+		case 'I': goto yy488;
 		default: goto yy35;
 	}
 yy419:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy489;
+		case 'A': goto yy489;
 		default: goto yy35;
 	}
 yy420:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy490;
+		case 'l': goto yy490;
 		default: goto yy35;
 	}
 yy421:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy491;
+		case 'c': goto yy491;
 		default: goto yy35;
 	}
 yy422:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy492;
+		case 'i': goto yy492;
 		default: goto yy35;
 	}
 yy423:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy494;
+		case 'F': goto yy493;
 		default: goto yy35;
 	}
 yy424:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy496;
+		case 'I': goto yy494;
 		default: goto yy35;
 	}
 yy425:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy497;
+		case 'D': goto yy495;
 		default: goto yy35;
 	}
 yy426:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy498;
+		case 'S': goto yy497;
 		default: goto yy35;
 	}
 yy427:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy499;
+		case 'E': goto yy499;
 		default: goto yy35;
 	}
 yy428:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy501;
+		case 'C': goto yy500;
 		default: goto yy35;
 	}
 yy429:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy502;
+		case 'C': goto yy501;
 		default: goto yy35;
 	}
 yy430:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'R': goto yy502;
+		default: goto yy35;
+	}
+yy431:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy504;
+		default: goto yy35;
+	}
+yy432:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy505;
+		default: goto yy35;
+	}
+yy433:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -17724,10 +17773,10 @@ yy430:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'I': goto yy503;
+		case 'I': goto yy506;
 		default: goto yy57;
 	}
-yy431:
+yy434:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -17792,21 +17841,21 @@ yy431:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'N': goto yy504;
+		case 'N': goto yy507;
 		default: goto yy57;
 	}
-yy432:
+yy435:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy505;
+		case 'c': goto yy508;
 		default: goto yy35;
 	}
-yy433:
-	yyaccept = 35;
+yy436:
+	yyaccept = 36;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17870,94 +17919,94 @@ yy433:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy434;
+		default: goto yy437;
 	}
-yy434:
-#line 1908 "asn_compiler.yacc"
+yy437:
+#line 1948 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-#line 17879 "asn_compiler.hpp"
-yy435:
+#line 17928 "asn_compiler.hpp"
+yy438:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy506;
+		case 'I': goto yy509;
 		default: goto yy35;
 	}
-yy436:
+yy439:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy508;
+		case 'A': goto yy511;
 		default: goto yy35;
 	}
-yy437:
+yy440:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy509;
+		case 'D': goto yy512;
 		default: goto yy35;
 	}
-yy438:
+yy441:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy510;
+		case 'N': goto yy513;
 		default: goto yy35;
 	}
-yy439:
+yy442:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy512;
+		case 'N': goto yy515;
 		default: goto yy35;
 	}
-yy440:
+yy443:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy513;
+		case 'T': goto yy516;
 		default: goto yy35;
 	}
-yy441:
+yy444:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy515;
+		case 'E': goto yy518;
 		default: goto yy35;
 	}
-yy442:
+yy445:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'b': goto yy517;
+		case 'b': goto yy520;
 		default: goto yy35;
 	}
-yy443:
+yy446:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'V': goto yy518;
+		case 'V': goto yy521;
 		default: goto yy35;
 	}
-yy444:
+yy447:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy519;
+		case 'C': goto yy522;
 		default: goto yy35;
 	}
-yy445:
+yy448:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy520;
+		case 'G': goto yy523;
 		default: goto yy35;
 	}
-yy446:
-	yyaccept = 36;
+yy449:
+	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18021,17 +18070,17 @@ yy446:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy447;
+		default: goto yy450;
 	}
-yy447:
-#line 1927 "asn_compiler.yacc"
+yy450:
+#line 1967 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-#line 18030 "asn_compiler.hpp"
-yy448:
-	yyaccept = 37;
+#line 18079 "asn_compiler.hpp"
+yy451:
+	yyaccept = 38;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18095,45 +18144,45 @@ yy448:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy449;
+		default: goto yy452;
 	}
-yy449:
-#line 1928 "asn_compiler.yacc"
+yy452:
+#line 1968 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-#line 18104 "asn_compiler.hpp"
-yy450:
+#line 18153 "asn_compiler.hpp"
+yy453:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy521;
+		case 'i': goto yy524;
 		default: goto yy35;
 	}
-yy451:
+yy454:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy522;
+		case 'F': goto yy525;
 		default: goto yy35;
 	}
-yy452:
+yy455:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy523;
+		case 'D': goto yy526;
 		default: goto yy35;
 	}
-yy453:
+yy456:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'x': goto yy524;
+		case 'x': goto yy527;
 		default: goto yy35;
 	}
-yy454:
-	yyaccept = 38;
+yy457:
+	yyaccept = 39;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18197,87 +18246,87 @@ yy454:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy455;
+		default: goto yy458;
 	}
-yy455:
-#line 1937 "asn_compiler.yacc"
+yy458:
+#line 1977 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-#line 18206 "asn_compiler.hpp"
-yy456:
+#line 18255 "asn_compiler.hpp"
+yy459:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy525;
+		case 'S': goto yy528;
 		default: goto yy35;
 	}
-yy457:
+yy460:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy526;
+		case 'e': goto yy529;
 		default: goto yy35;
 	}
-yy458:
+yy461:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy528;
+		case 'r': goto yy531;
 		default: goto yy35;
 	}
-yy459:
+yy462:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 's': goto yy529;
+		case 's': goto yy532;
 		default: goto yy35;
 	}
-yy460:
+yy463:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy530;
+		case 'e': goto yy533;
 		default: goto yy35;
 	}
-yy461:
+yy464:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy531;
+		case 'e': goto yy534;
 		default: goto yy35;
 	}
-yy462:
+yy465:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy532;
+		case 'T': goto yy535;
 		default: goto yy35;
 	}
-yy463:
+yy466:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy533;
+		case 'T': goto yy536;
 		default: goto yy35;
 	}
-yy464:
+yy467:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy534;
+		case 'I': goto yy537;
 		default: goto yy35;
 	}
-yy465:
+yy468:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy535;
+		case 'n': goto yy538;
 		default: goto yy35;
 	}
-yy466:
-	yyaccept = 39;
+yy469:
+	yyaccept = 40;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18341,52 +18390,52 @@ yy466:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy467;
+		default: goto yy470;
 	}
-yy467:
-#line 1862 "asn_compiler.yacc"
+yy470:
+#line 1902 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-#line 18350 "asn_compiler.hpp"
-yy468:
+#line 18399 "asn_compiler.hpp"
+yy471:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy536;
+		case 'E': goto yy539;
 		default: goto yy35;
 	}
-yy469:
+yy472:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy537;
+		case 'N': goto yy540;
 		default: goto yy35;
 	}
-yy470:
+yy473:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy538;
+		case 'I': goto yy541;
 		default: goto yy35;
 	}
-yy471:
+yy474:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy539;
+		case 'I': goto yy542;
 		default: goto yy35;
 	}
-yy472:
+yy475:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy540;
+		case 'M': goto yy543;
 		default: goto yy35;
 	}
-yy473:
-	yyaccept = 40;
+yy476:
+	yyaccept = 41;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18450,38 +18499,38 @@ yy473:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy474;
+		default: goto yy477;
 	}
-yy474:
-#line 1873 "asn_compiler.yacc"
+yy477:
+#line 1913 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-#line 18459 "asn_compiler.hpp"
-yy475:
+#line 18508 "asn_compiler.hpp"
+yy478:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy541;
+		case 'I': goto yy544;
 		default: goto yy35;
 	}
-yy476:
+yy479:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy542;
+		case 'N': goto yy545;
 		default: goto yy35;
 	}
-yy477:
+yy480:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy544;
+		case 'D': goto yy547;
 		default: goto yy35;
 	}
-yy478:
-	yyaccept = 41;
+yy481:
+	yyaccept = 42;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18545,38 +18594,38 @@ yy478:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy479;
+		default: goto yy482;
 	}
-yy479:
-#line 1877 "asn_compiler.yacc"
+yy482:
+#line 1917 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-#line 18554 "asn_compiler.hpp"
-yy480:
+#line 18603 "asn_compiler.hpp"
+yy483:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy546;
+		case 'G': goto yy549;
 		default: goto yy35;
 	}
-yy481:
+yy484:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy547;
+		case 'T': goto yy550;
 		default: goto yy35;
 	}
-yy482:
+yy485:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy548;
+		case 'T': goto yy551;
 		default: goto yy35;
 	}
-yy483:
-	yyaccept = 42;
+yy486:
+	yyaccept = 43;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18640,67 +18689,67 @@ yy483:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy484;
+		default: goto yy487;
 	}
-yy484:
-#line 1883 "asn_compiler.yacc"
+yy487:
+#line 1923 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-#line 18649 "asn_compiler.hpp"
-yy485:
+#line 18698 "asn_compiler.hpp"
+yy488:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy550;
+		case 'B': goto yy553;
 		default: goto yy35;
 	}
-yy486:
+yy489:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy551;
+		case 'L': goto yy554;
 		default: goto yy35;
 	}
-yy487:
+yy490:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy553;
-		case 'i': goto yy554;
+		case 'S': goto yy556;
+		case 'i': goto yy557;
 		default: goto yy35;
 	}
-yy488:
+yy491:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy555;
+		case 'S': goto yy558;
 		default: goto yy35;
 	}
-yy489:
+yy492:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy556;
+		case 'n': goto yy559;
 		default: goto yy35;
 	}
-yy490:
+yy493:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy557;
+		case 'I': goto yy560;
 		default: goto yy35;
 	}
-yy491:
+yy494:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy558;
+		case 'T': goto yy561;
 		default: goto yy35;
 	}
-yy492:
-	yyaccept = 43;
+yy495:
+	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18764,17 +18813,17 @@ yy492:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy493;
+		default: goto yy496;
 	}
-yy493:
-#line 1894 "asn_compiler.yacc"
+yy496:
+#line 1934 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-#line 18773 "asn_compiler.hpp"
-yy494:
-	yyaccept = 44;
+#line 18822 "asn_compiler.hpp"
+yy497:
+	yyaccept = 45;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18838,38 +18887,38 @@ yy494:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy495;
+		default: goto yy498;
 	}
-yy495:
-#line 1895 "asn_compiler.yacc"
+yy498:
+#line 1935 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-#line 18847 "asn_compiler.hpp"
-yy496:
+#line 18896 "asn_compiler.hpp"
+yy499:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy560;
+		case 'S': goto yy563;
 		default: goto yy35;
 	}
-yy497:
+yy500:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy562;
+		case 'E': goto yy565;
 		default: goto yy35;
 	}
-yy498:
+yy501:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy564;
+		case 'T': goto yy567;
 		default: goto yy35;
 	}
-yy499:
-	yyaccept = 45;
+yy502:
+	yyaccept = 46;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18933,52 +18982,52 @@ yy499:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy500;
+		default: goto yy503;
 	}
-yy500:
-#line 1899 "asn_compiler.yacc"
+yy503:
+#line 1939 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-#line 18942 "asn_compiler.hpp"
-yy501:
+#line 18991 "asn_compiler.hpp"
+yy504:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy565;
+		case 'C': goto yy568;
 		default: goto yy35;
 	}
-yy502:
+yy505:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy566;
+		case 't': goto yy569;
 		default: goto yy35;
 	}
-yy503:
+yy506:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy567;
+		case 'N': goto yy570;
 		default: goto yy35;
 	}
-yy504:
+yy507:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy568;
+		case 'U': goto yy571;
 		default: goto yy35;
 	}
-yy505:
+yy508:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy569;
+		case 'S': goto yy572;
 		default: goto yy35;
 	}
-yy506:
-	yyaccept = 46;
+yy509:
+	yyaccept = 47;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19042,31 +19091,31 @@ yy506:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy507;
+		default: goto yy510;
 	}
-yy507:
-#line 1912 "asn_compiler.yacc"
+yy510:
+#line 1952 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-#line 19051 "asn_compiler.hpp"
-yy508:
+#line 19100 "asn_compiler.hpp"
+yy511:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy570;
+		case 'L': goto yy573;
 		default: goto yy35;
 	}
-yy509:
+yy512:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy572;
+		case 'e': goto yy575;
 		default: goto yy35;
 	}
-yy510:
-	yyaccept = 47;
+yy513:
+	yyaccept = 48;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19130,24 +19179,24 @@ yy510:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy511;
+		default: goto yy514;
 	}
-yy511:
-#line 1914 "asn_compiler.yacc"
+yy514:
+#line 1954 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-#line 19139 "asn_compiler.hpp"
-yy512:
+#line 19188 "asn_compiler.hpp"
+yy515:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy573;
+		case 'F': goto yy576;
 		default: goto yy35;
 	}
-yy513:
-	yyaccept = 48;
+yy516:
+	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19211,17 +19260,17 @@ yy513:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy514;
+		default: goto yy517;
 	}
-yy514:
-#line 1917 "asn_compiler.yacc"
+yy517:
+#line 1957 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-#line 19220 "asn_compiler.hpp"
-yy515:
-	yyaccept = 49;
+#line 19269 "asn_compiler.hpp"
+yy518:
+	yyaccept = 50;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19285,80 +19334,80 @@ yy515:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy516;
+		default: goto yy519;
 	}
-yy516:
-#line 1919 "asn_compiler.yacc"
+yy519:
+#line 1959 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-#line 19294 "asn_compiler.hpp"
-yy517:
+#line 19343 "asn_compiler.hpp"
+yy520:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy574;
+		case 'l': goto yy577;
 		default: goto yy35;
 	}
-yy518:
+yy521:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy575;
+		case 'E': goto yy578;
 		default: goto yy35;
 	}
-yy519:
+yy522:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy576;
+		case 'E': goto yy579;
 		default: goto yy35;
 	}
-yy520:
+yy523:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy578;
+		case 'S': goto yy581;
 		default: goto yy35;
 	}
-yy521:
+yy524:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy580;
+		case 'n': goto yy583;
 		default: goto yy35;
 	}
-yy522:
+yy525:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy581;
+		case '-': goto yy584;
 		default: goto yy35;
 	}
-yy523:
+yy526:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy582;
+		case 'E': goto yy585;
 		default: goto yy35;
 	}
-yy524:
+yy527:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy583;
+		case 'S': goto yy586;
 		default: goto yy35;
 	}
-yy525:
+yy528:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy584;
+		case 'A': goto yy587;
 		default: goto yy35;
 	}
-yy526:
-	yyaccept = 50;
+yy529:
+	yyaccept = 51;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19422,115 +19471,115 @@ yy526:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy527;
+		default: goto yy530;
 	}
-yy527:
-#line 1940 "asn_compiler.yacc"
+yy530:
+#line 1980 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-#line 19431 "asn_compiler.hpp"
-yy528:
+#line 19480 "asn_compiler.hpp"
+yy531:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy585;
+		case 'i': goto yy588;
 		default: goto yy35;
 	}
-yy529:
+yy532:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy586;
+		case 'a': goto yy589;
 		default: goto yy35;
 	}
-yy530:
+yy533:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'x': goto yy587;
+		case 'x': goto yy590;
 		default: goto yy35;
 	}
-yy531:
+yy534:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy588;
+		case 'S': goto yy591;
 		default: goto yy35;
 	}
-yy532:
+yy535:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy589;
+		case '-': goto yy592;
 		default: goto yy35;
 	}
-yy533:
+yy536:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy590;
+		case 'I': goto yy593;
 		default: goto yy35;
 	}
-yy534:
+yy537:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy591;
+		case 'C': goto yy594;
 		default: goto yy35;
 	}
-yy535:
+yy538:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy593;
+		case 'g': goto yy596;
 		default: goto yy35;
 	}
-yy536:
+yy539:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy595;
+		case 'R': goto yy598;
 		default: goto yy35;
 	}
-yy537:
+yy540:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy597;
+		case 'T': goto yy600;
 		default: goto yy35;
 	}
-yy538:
+yy541:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy599;
+		case 'N': goto yy602;
 		default: goto yy35;
 	}
-yy539:
+yy542:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy600;
+		case 'N': goto yy603;
 		default: goto yy35;
 	}
-yy540:
+yy543:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy601;
+		case 'E': goto yy604;
 		default: goto yy35;
 	}
-yy541:
+yy544:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy603;
+		case 'O': goto yy606;
 		default: goto yy35;
 	}
-yy542:
-	yyaccept = 51;
+yy545:
+	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19594,17 +19643,17 @@ yy542:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy543;
+		default: goto yy546;
 	}
-yy543:
-#line 1875 "asn_compiler.yacc"
+yy546:
+#line 1915 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-#line 19603 "asn_compiler.hpp"
-yy544:
-	yyaccept = 52;
+#line 19652 "asn_compiler.hpp"
+yy547:
+	yyaccept = 53;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19668,31 +19717,31 @@ yy544:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy545;
+		default: goto yy548;
 	}
-yy545:
-#line 1876 "asn_compiler.yacc"
+yy548:
+#line 1916 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-#line 19677 "asn_compiler.hpp"
-yy546:
+#line 19726 "asn_compiler.hpp"
+yy549:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '_': goto yy604;
+		case '_': goto yy607;
 		default: goto yy35;
 	}
-yy547:
+yy550:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy605;
+		case 'E': goto yy608;
 		default: goto yy35;
 	}
-yy548:
-	yyaccept = 53;
+yy551:
+	yyaccept = 54;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19756,24 +19805,24 @@ yy548:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy549;
+		default: goto yy552;
 	}
-yy549:
-#line 1882 "asn_compiler.yacc"
+yy552:
+#line 1922 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-#line 19765 "asn_compiler.hpp"
-yy550:
+#line 19814 "asn_compiler.hpp"
+yy553:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy606;
+		case 'I': goto yy609;
 		default: goto yy35;
 	}
-yy551:
-	yyaccept = 54;
+yy554:
+	yyaccept = 55;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19837,52 +19886,52 @@ yy551:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy552;
+		default: goto yy555;
 	}
-yy552:
-#line 1885 "asn_compiler.yacc"
+yy555:
+#line 1925 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-#line 19846 "asn_compiler.hpp"
-yy553:
+#line 19895 "asn_compiler.hpp"
+yy556:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy607;
+		case 't': goto yy610;
 		default: goto yy35;
 	}
-yy554:
+yy557:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'z': goto yy608;
+		case 'z': goto yy611;
 		default: goto yy35;
 	}
-yy555:
+yy558:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy609;
+		case 't': goto yy612;
 		default: goto yy35;
 	}
-yy556:
+yy559:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy610;
+		case 'g': goto yy613;
 		default: goto yy35;
 	}
-yy557:
+yy560:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy612;
+		case 'E': goto yy615;
 		default: goto yy35;
 	}
-yy558:
-	yyaccept = 55;
+yy561:
+	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19946,17 +19995,17 @@ yy558:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy559;
+		default: goto yy562;
 	}
-yy559:
-#line 1893 "asn_compiler.yacc"
+yy562:
+#line 1933 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-#line 19955 "asn_compiler.hpp"
-yy560:
-	yyaccept = 56;
+#line 20004 "asn_compiler.hpp"
+yy563:
+	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20020,17 +20069,17 @@ yy560:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy561;
+		default: goto yy564;
 	}
-yy561:
-#line 1896 "asn_compiler.yacc"
+yy564:
+#line 1936 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-#line 20029 "asn_compiler.hpp"
-yy562:
-	yyaccept = 57;
+#line 20078 "asn_compiler.hpp"
+yy565:
+	yyaccept = 58;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20094,59 +20143,59 @@ yy562:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy563;
+		default: goto yy566;
 	}
-yy563:
-#line 1897 "asn_compiler.yacc"
+yy566:
+#line 1937 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-#line 20103 "asn_compiler.hpp"
-yy564:
+#line 20152 "asn_compiler.hpp"
+yy567:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy613;
+		case 'I': goto yy616;
 		default: goto yy35;
 	}
-yy565:
+yy568:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy614;
+		case 'T': goto yy617;
 		default: goto yy35;
 	}
-yy566:
+yy569:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy615;
+		case 'r': goto yy618;
 		default: goto yy35;
 	}
-yy567:
+yy570:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy616;
+		case 'F': goto yy619;
 		default: goto yy35;
 	}
-yy568:
+yy571:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy617;
+		case 'M': goto yy620;
 		default: goto yy35;
 	}
-yy569:
+yy572:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy618;
+		case 't': goto yy621;
 		default: goto yy35;
 	}
-yy570:
-	yyaccept = 58;
+yy573:
+	yyaccept = 59;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20210,45 +20259,45 @@ yy570:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy571;
+		default: goto yy574;
 	}
-yy571:
-#line 1913 "asn_compiler.yacc"
+yy574:
+#line 1953 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-#line 20219 "asn_compiler.hpp"
-yy572:
+#line 20268 "asn_compiler.hpp"
+yy575:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 's': goto yy619;
+		case 's': goto yy622;
 		default: goto yy35;
 	}
-yy573:
+yy576:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy620;
+		case 'I': goto yy623;
 		default: goto yy35;
 	}
-yy574:
+yy577:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy621;
+		case 'e': goto yy624;
 		default: goto yy35;
 	}
-yy575:
+yy578:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy622;
+		case '-': goto yy625;
 		default: goto yy35;
 	}
-yy576:
-	yyaccept = 59;
+yy579:
+	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20312,17 +20361,17 @@ yy576:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy577;
+		default: goto yy580;
 	}
-yy577:
-#line 1923 "asn_compiler.yacc"
+yy580:
+#line 1963 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-#line 20321 "asn_compiler.hpp"
-yy578:
-	yyaccept = 60;
+#line 20370 "asn_compiler.hpp"
+yy581:
+	yyaccept = 61;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20386,20 +20435,20 @@ yy578:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy579;
+		default: goto yy582;
 	}
-yy579:
-#line 1925 "asn_compiler.yacc"
+yy582:
+#line 1965 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-#line 20395 "asn_compiler.hpp"
-yy580:
+#line 20444 "asn_compiler.hpp"
+yy583:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy623;
+		case 'g': goto yy626;
 		default: goto yy35;
 	}
-yy581:
+yy584:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -20464,59 +20513,59 @@ yy581:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'D': goto yy625;
+		case 'D': goto yy628;
 		default: goto yy57;
 	}
-yy582:
+yy585:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy626;
+		case 'N': goto yy629;
 		default: goto yy35;
 	}
-yy583:
+yy586:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy627;
+		case 't': goto yy630;
 		default: goto yy35;
 	}
-yy584:
+yy587:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy628;
+		case 'L': goto yy631;
 		default: goto yy35;
 	}
-yy585:
+yy588:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy630;
+		case 'n': goto yy633;
 		default: goto yy35;
 	}
-yy586:
+yy589:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy631;
+		case 'l': goto yy634;
 		default: goto yy35;
 	}
-yy587:
+yy590:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy632;
+		case 'S': goto yy635;
 		default: goto yy35;
 	}
-yy588:
+yy591:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy633;
+		case 't': goto yy636;
 		default: goto yy35;
 	}
-yy589:
+yy592:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -20581,21 +20630,21 @@ yy589:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'S': goto yy634;
+		case 'S': goto yy637;
 		default: goto yy57;
 	}
-yy590:
+yy593:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy635;
+		case 'O': goto yy638;
 		default: goto yy35;
 	}
-yy591:
-	yyaccept = 61;
+yy594:
+	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20659,17 +20708,17 @@ yy591:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy592;
+		default: goto yy595;
 	}
-yy592:
-#line 1858 "asn_compiler.yacc"
+yy595:
+#line 1898 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-#line 20668 "asn_compiler.hpp"
-yy593:
-	yyaccept = 62;
+#line 20717 "asn_compiler.hpp"
+yy596:
+	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20733,17 +20782,17 @@ yy593:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy594;
+		default: goto yy597;
 	}
-yy594:
-#line 1861 "asn_compiler.yacc"
+yy597:
+#line 1901 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-#line 20742 "asn_compiler.hpp"
-yy595:
-	yyaccept = 63;
+#line 20791 "asn_compiler.hpp"
+yy598:
+	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20807,17 +20856,17 @@ yy595:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy596;
+		default: goto yy599;
 	}
-yy596:
-#line 1864 "asn_compiler.yacc"
+yy599:
+#line 1904 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-#line 20816 "asn_compiler.hpp"
-yy597:
-	yyaccept = 64;
+#line 20865 "asn_compiler.hpp"
+yy600:
+	yyaccept = 65;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20880,32 +20929,32 @@ yy597:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'S': goto yy636;
-		default: goto yy598;
+		case 'S': goto yy639;
+		default: goto yy601;
 	}
-yy598:
-#line 1867 "asn_compiler.yacc"
+yy601:
+#line 1907 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-#line 20890 "asn_compiler.hpp"
-yy599:
+#line 20939 "asn_compiler.hpp"
+yy602:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy638;
+		case 'E': goto yy641;
 		default: goto yy35;
 	}
-yy600:
+yy603:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy639;
+		case 'G': goto yy642;
 		default: goto yy35;
 	}
-yy601:
-	yyaccept = 65;
+yy604:
+	yyaccept = 66;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20969,66 +21018,66 @@ yy601:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy602;
+		default: goto yy605;
 	}
-yy602:
-#line 1872 "asn_compiler.yacc"
+yy605:
+#line 1912 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-#line 20978 "asn_compiler.hpp"
-yy603:
+#line 21027 "asn_compiler.hpp"
+yy606:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy641;
+		case 'N': goto yy644;
 		default: goto yy35;
 	}
-yy604:
+yy607:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy642;
+		case 'C': goto yy645;
 		default: goto yy35;
 	}
-yy605:
+yy608:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy643;
+		case 'D': goto yy646;
 		default: goto yy35;
 	}
-yy606:
+yy609:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy645;
+		case 'L': goto yy648;
 		default: goto yy35;
 	}
-yy607:
+yy610:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy646;
+		case 'r': goto yy649;
 		default: goto yy35;
 	}
-yy608:
+yy611:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy647;
+		case 'e': goto yy650;
 		default: goto yy35;
 	}
-yy609:
+yy612:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy648;
+		case 'r': goto yy651;
 		default: goto yy35;
 	}
-yy610:
-	yyaccept = 66;
+yy613:
+	yyaccept = 67;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21092,83 +21141,83 @@ yy610:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy611;
+		default: goto yy614;
 	}
-yy611:
-#line 1891 "asn_compiler.yacc"
+yy614:
+#line 1931 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-#line 21101 "asn_compiler.hpp"
-yy612:
+#line 21150 "asn_compiler.hpp"
+yy615:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy649;
+		case 'R': goto yy652;
 		default: goto yy35;
 	}
-yy613:
+yy616:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy651;
+		case 'O': goto yy654;
 		default: goto yy35;
 	}
-yy614:
+yy617:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy652;
+		case 'I': goto yy655;
 		default: goto yy35;
 	}
-yy615:
+yy618:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy653;
+		case 'i': goto yy656;
 		default: goto yy35;
 	}
-yy616:
+yy619:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy654;
+		case 'I': goto yy657;
 		default: goto yy35;
 	}
-yy617:
+yy620:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy655;
+		case 'B': goto yy658;
 		default: goto yy35;
 	}
-yy618:
+yy621:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy656;
+		case 'r': goto yy659;
 		default: goto yy35;
 	}
-yy619:
+yy622:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy657;
+		case 'c': goto yy660;
 		default: goto yy35;
 	}
-yy620:
+yy623:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy658;
+		case 'N': goto yy661;
 		default: goto yy35;
 	}
-yy621:
+yy624:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy659;
+		case 'S': goto yy662;
 		default: goto yy35;
 	}
-yy622:
+yy625:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -21233,14 +21282,14 @@ yy622:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'O': goto yy660;
+		case 'O': goto yy663;
 		default: goto yy57;
 	}
-yy623:
-	yyaccept = 67;
+yy626:
+	yyaccept = 68;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21304,38 +21353,38 @@ yy623:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy624;
+		default: goto yy627;
 	}
-yy624:
-#line 1929 "asn_compiler.yacc"
+yy627:
+#line 1969 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-#line 21313 "asn_compiler.hpp"
-yy625:
+#line 21362 "asn_compiler.hpp"
+yy628:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy661;
+		case 'A': goto yy664;
 		default: goto yy35;
 	}
-yy626:
+yy629:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy662;
+		case 'T': goto yy665;
 		default: goto yy35;
 	}
-yy627:
+yy630:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy663;
+		case 'r': goto yy666;
 		default: goto yy35;
 	}
-yy628:
-	yyaccept = 68;
+yy631:
+	yyaccept = 69;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21399,59 +21448,59 @@ yy628:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy629;
+		default: goto yy632;
 	}
-yy629:
-#line 1938 "asn_compiler.yacc"
+yy632:
+#line 1978 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-#line 21408 "asn_compiler.hpp"
-yy630:
+#line 21457 "asn_compiler.hpp"
+yy633:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy664;
+		case 'g': goto yy667;
 		default: goto yy35;
 	}
-yy631:
+yy634:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy666;
+		case 'S': goto yy669;
 		default: goto yy35;
 	}
-yy632:
+yy635:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy667;
+		case 't': goto yy670;
 		default: goto yy35;
 	}
-yy633:
+yy636:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy668;
+		case 'r': goto yy671;
 		default: goto yy35;
 	}
-yy634:
+yy637:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy669;
+		case 'Y': goto yy672;
 		default: goto yy35;
 	}
-yy635:
+yy638:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy670;
+		case 'N': goto yy673;
 		default: goto yy35;
 	}
-yy636:
-	yyaccept = 69;
+yy639:
+	yyaccept = 70;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21515,24 +21564,24 @@ yy636:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy637;
+		default: goto yy640;
 	}
-yy637:
-#line 1868 "asn_compiler.yacc"
+yy640:
+#line 1908 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-#line 21524 "asn_compiler.hpp"
-yy638:
+#line 21573 "asn_compiler.hpp"
+yy641:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy672;
+		case 'D': goto yy675;
 		default: goto yy35;
 	}
-yy639:
-	yyaccept = 70;
+yy642:
+	yyaccept = 71;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21596,31 +21645,31 @@ yy639:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy640;
+		default: goto yy643;
 	}
-yy640:
-#line 1870 "asn_compiler.yacc"
+yy643:
+#line 1910 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-#line 21605 "asn_compiler.hpp"
-yy641:
+#line 21654 "asn_compiler.hpp"
+yy644:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy674;
+		case 'S': goto yy677;
 		default: goto yy35;
 	}
-yy642:
+yy645:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy676;
+		case 'O': goto yy679;
 		default: goto yy35;
 	}
-yy643:
-	yyaccept = 71;
+yy646:
+	yyaccept = 72;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21684,45 +21733,45 @@ yy643:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy644;
+		default: goto yy647;
 	}
-yy644:
-#line 1880 "asn_compiler.yacc"
+yy647:
+#line 1920 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-#line 21693 "asn_compiler.hpp"
-yy645:
+#line 21742 "asn_compiler.hpp"
+yy648:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy677;
+		case 'I': goto yy680;
 		default: goto yy35;
 	}
-yy646:
+yy649:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy678;
+		case 'i': goto yy681;
 		default: goto yy35;
 	}
-yy647:
+yy650:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'd': goto yy679;
+		case 'd': goto yy682;
 		default: goto yy35;
 	}
-yy648:
+yy651:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy680;
+		case 'i': goto yy683;
 		default: goto yy35;
 	}
-yy649:
-	yyaccept = 72;
+yy652:
+	yyaccept = 73;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21786,108 +21835,108 @@ yy649:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy650;
+		default: goto yy653;
 	}
-yy650:
-#line 1892 "asn_compiler.yacc"
+yy653:
+#line 1932 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-#line 21795 "asn_compiler.hpp"
-yy651:
+#line 21844 "asn_compiler.hpp"
+yy654:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy681;
+		case 'N': goto yy684;
 		default: goto yy35;
 	}
-yy652:
+yy655:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy682;
+		case 'O': goto yy685;
 		default: goto yy35;
 	}
-yy653:
+yy656:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy683;
+		case 'n': goto yy686;
 		default: goto yy35;
 	}
-yy654:
+yy657:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy684;
+		case 'N': goto yy687;
 		default: goto yy35;
 	}
-yy655:
+yy658:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy685;
+		case 'E': goto yy688;
 		default: goto yy35;
 	}
-yy656:
+yy659:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy686;
+		case 'i': goto yy689;
 		default: goto yy35;
 	}
-yy657:
+yy660:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy687;
+		case 'r': goto yy690;
 		default: goto yy35;
 	}
-yy658:
+yy661:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy688;
+		case 'I': goto yy691;
 		default: goto yy35;
 	}
-yy659:
+yy662:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy689;
+		case 't': goto yy692;
 		default: goto yy35;
 	}
-yy660:
+yy663:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy690;
+		case 'I': goto yy693;
 		default: goto yy35;
 	}
-yy661:
+yy664:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy691;
+		case 'Y': goto yy694;
 		default: goto yy35;
 	}
-yy662:
+yy665:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy693;
+		case 'I': goto yy696;
 		default: goto yy35;
 	}
-yy663:
+yy666:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy694;
+		case 'i': goto yy697;
 		default: goto yy35;
 	}
-yy664:
-	yyaccept = 73;
+yy667:
+	yyaccept = 74;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21951,45 +22000,45 @@ yy664:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy665;
+		default: goto yy668;
 	}
-yy665:
-#line 1941 "asn_compiler.yacc"
+yy668:
+#line 1981 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-#line 21960 "asn_compiler.hpp"
-yy666:
+#line 22009 "asn_compiler.hpp"
+yy669:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy695;
+		case 't': goto yy698;
 		default: goto yy35;
 	}
-yy667:
+yy670:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy696;
+		case 'r': goto yy699;
 		default: goto yy35;
 	}
-yy668:
+yy671:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy697;
+		case 'i': goto yy700;
 		default: goto yy35;
 	}
-yy669:
+yy672:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy698;
+		case 'N': goto yy701;
 		default: goto yy35;
 	}
-yy670:
-	yyaccept = 74;
+yy673:
+	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22053,17 +22102,17 @@ yy670:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy671;
+		default: goto yy674;
 	}
-yy671:
-#line 1857 "asn_compiler.yacc"
+yy674:
+#line 1897 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-#line 22062 "asn_compiler.hpp"
-yy672:
-	yyaccept = 75;
+#line 22111 "asn_compiler.hpp"
+yy675:
+	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22127,17 +22176,17 @@ yy672:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy673;
+		default: goto yy676;
 	}
-yy673:
-#line 1869 "asn_compiler.yacc"
+yy676:
+#line 1909 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-#line 22136 "asn_compiler.hpp"
-yy674:
-	yyaccept = 76;
+#line 22185 "asn_compiler.hpp"
+yy677:
+	yyaccept = 77;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22201,122 +22250,122 @@ yy674:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy675;
+		default: goto yy678;
 	}
-yy675:
-#line 1874 "asn_compiler.yacc"
+yy678:
+#line 1914 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-#line 22210 "asn_compiler.hpp"
-yy676:
+#line 22259 "asn_compiler.hpp"
+yy679:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy699;
+		case 'N': goto yy702;
 		default: goto yy35;
 	}
-yy677:
+yy680:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy700;
+		case 'T': goto yy703;
 		default: goto yy35;
 	}
-yy678:
+yy681:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy701;
+		case 'n': goto yy704;
 		default: goto yy35;
 	}
-yy679:
+yy682:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy702;
+		case 'T': goto yy705;
 		default: goto yy35;
 	}
-yy680:
+yy683:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy703;
+		case 'n': goto yy706;
 		default: goto yy35;
 	}
-yy681:
+yy684:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy704;
+		case 'S': goto yy707;
 		default: goto yy35;
 	}
-yy682:
+yy685:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy706;
+		case 'N': goto yy709;
 		default: goto yy35;
 	}
-yy683:
+yy686:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy708;
+		case 'g': goto yy711;
 		default: goto yy35;
 	}
-yy684:
+yy687:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy710;
+		case 'I': goto yy713;
 		default: goto yy35;
 	}
-yy685:
+yy688:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy711;
+		case 'R': goto yy714;
 		default: goto yy35;
 	}
-yy686:
+yy689:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy713;
+		case 'n': goto yy716;
 		default: goto yy35;
 	}
-yy687:
+yy690:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy714;
+		case 'i': goto yy717;
 		default: goto yy35;
 	}
-yy688:
+yy691:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy715;
+		case 'T': goto yy718;
 		default: goto yy35;
 	}
-yy689:
+yy692:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy716;
+		case 'r': goto yy719;
 		default: goto yy35;
 	}
-yy690:
+yy693:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy717;
+		case 'D': goto yy720;
 		default: goto yy35;
 	}
-yy691:
-	yyaccept = 77;
+yy694:
+	yyaccept = 78;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22380,94 +22429,94 @@ yy691:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy692;
+		default: goto yy695;
 	}
-yy692:
-#line 1933 "asn_compiler.yacc"
+yy695:
+#line 1973 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-#line 22389 "asn_compiler.hpp"
-yy693:
+#line 22438 "asn_compiler.hpp"
+yy696:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy719;
+		case 'F': goto yy722;
 		default: goto yy35;
 	}
-yy694:
+yy697:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy720;
+		case 'n': goto yy723;
 		default: goto yy35;
 	}
-yy695:
+yy698:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy721;
+		case 'r': goto yy724;
 		default: goto yy35;
 	}
-yy696:
+yy699:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy722;
+		case 'i': goto yy725;
 		default: goto yy35;
 	}
-yy697:
+yy700:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy723;
+		case 'n': goto yy726;
 		default: goto yy35;
 	}
-yy698:
+yy701:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy724;
+		case 'T': goto yy727;
 		default: goto yy35;
 	}
-yy699:
+yy702:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy725;
+		case 'T': goto yy728;
 		default: goto yy35;
 	}
-yy700:
+yy703:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy726;
+		case 'Y': goto yy729;
 		default: goto yy35;
 	}
-yy701:
+yy704:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy728;
+		case 'g': goto yy731;
 		default: goto yy35;
 	}
-yy702:
+yy705:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy730;
+		case 'i': goto yy733;
 		default: goto yy35;
 	}
-yy703:
+yy706:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy731;
+		case 'g': goto yy734;
 		default: goto yy35;
 	}
-yy704:
-	yyaccept = 78;
+yy707:
+	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22531,17 +22580,17 @@ yy704:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy705;
+		default: goto yy708;
 	}
-yy705:
-#line 1898 "asn_compiler.yacc"
+yy708:
+#line 1938 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-#line 22540 "asn_compiler.hpp"
-yy706:
-	yyaccept = 79;
+#line 22589 "asn_compiler.hpp"
+yy709:
+	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22605,17 +22654,17 @@ yy706:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy707;
+		default: goto yy710;
 	}
-yy707:
-#line 1900 "asn_compiler.yacc"
+yy710:
+#line 1940 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-#line 22614 "asn_compiler.hpp"
-yy708:
-	yyaccept = 80;
+#line 22663 "asn_compiler.hpp"
+yy711:
+	yyaccept = 81;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22679,24 +22728,24 @@ yy708:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy709;
+		default: goto yy712;
 	}
-yy709:
-#line 1901 "asn_compiler.yacc"
+yy712:
+#line 1941 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-#line 22688 "asn_compiler.hpp"
-yy710:
+#line 22737 "asn_compiler.hpp"
+yy713:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy733;
+		case 'T': goto yy736;
 		default: goto yy35;
 	}
-yy711:
-	yyaccept = 81;
+yy714:
+	yyaccept = 82;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22760,45 +22809,45 @@ yy711:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy712;
+		default: goto yy715;
 	}
-yy712:
-#line 1905 "asn_compiler.yacc"
+yy715:
+#line 1945 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-#line 22769 "asn_compiler.hpp"
-yy713:
+#line 22818 "asn_compiler.hpp"
+yy716:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy734;
+		case 'g': goto yy737;
 		default: goto yy35;
 	}
-yy714:
+yy717:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'p': goto yy736;
+		case 'p': goto yy739;
 		default: goto yy35;
 	}
-yy715:
+yy718:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy737;
+		case 'Y': goto yy740;
 		default: goto yy35;
 	}
-yy716:
+yy719:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy739;
+		case 'i': goto yy742;
 		default: goto yy35;
 	}
-yy717:
-	yyaccept = 82;
+yy720:
+	yyaccept = 83;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy740;
+		case '-': goto yy743;
 		case '0':
 		case '1':
 		case '2':
@@ -22862,66 +22911,66 @@ yy717:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy718;
+		default: goto yy721;
 	}
-yy718:
-#line 1921 "asn_compiler.yacc"
+yy721:
+#line 1961 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-#line 22871 "asn_compiler.hpp"
-yy719:
+#line 22920 "asn_compiler.hpp"
+yy722:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy741;
+		case 'I': goto yy744;
 		default: goto yy35;
 	}
-yy720:
+yy723:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy742;
+		case 'g': goto yy745;
 		default: goto yy35;
 	}
-yy721:
+yy724:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy744;
+		case 'i': goto yy747;
 		default: goto yy35;
 	}
-yy722:
+yy725:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy745;
+		case 'n': goto yy748;
 		default: goto yy35;
 	}
-yy723:
+yy726:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy746;
+		case 'g': goto yy749;
 		default: goto yy35;
 	}
-yy724:
+yy727:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy748;
+		case 'A': goto yy751;
 		default: goto yy35;
 	}
-yy725:
+yy728:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy749;
+		case 'R': goto yy752;
 		default: goto yy35;
 	}
-yy726:
-	yyaccept = 83;
+yy729:
+	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22985,17 +23034,17 @@ yy726:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy727;
+		default: goto yy730;
 	}
-yy727:
-#line 1884 "asn_compiler.yacc"
+yy730:
+#line 1924 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-#line 22994 "asn_compiler.hpp"
-yy728:
-	yyaccept = 84;
+#line 23043 "asn_compiler.hpp"
+yy731:
+	yyaccept = 85;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23059,24 +23108,24 @@ yy728:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy729;
+		default: goto yy732;
 	}
-yy729:
-#line 1889 "asn_compiler.yacc"
+yy732:
+#line 1929 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-#line 23068 "asn_compiler.hpp"
-yy730:
+#line 23117 "asn_compiler.hpp"
+yy733:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'm': goto yy750;
+		case 'm': goto yy753;
 		default: goto yy35;
 	}
-yy731:
-	yyaccept = 85;
+yy734:
+	yyaccept = 86;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23140,24 +23189,24 @@ yy731:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy732;
+		default: goto yy735;
 	}
-yy732:
-#line 1890 "asn_compiler.yacc"
+yy735:
+#line 1930 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-#line 23149 "asn_compiler.hpp"
-yy733:
+#line 23198 "asn_compiler.hpp"
+yy736:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy751;
+		case 'Y': goto yy754;
 		default: goto yy35;
 	}
-yy734:
-	yyaccept = 86;
+yy737:
+	yyaccept = 87;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23221,24 +23270,24 @@ yy734:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy735;
+		default: goto yy738;
 	}
-yy735:
-#line 1907 "asn_compiler.yacc"
+yy738:
+#line 1947 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-#line 23230 "asn_compiler.hpp"
-yy736:
+#line 23279 "asn_compiler.hpp"
+yy739:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy753;
+		case 't': goto yy756;
 		default: goto yy35;
 	}
-yy737:
-	yyaccept = 87;
+yy740:
+	yyaccept = 88;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23302,20 +23351,20 @@ yy737:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy738;
+		default: goto yy741;
 	}
-yy738:
-#line 1916 "asn_compiler.yacc"
+yy741:
+#line 1956 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-#line 23311 "asn_compiler.hpp"
-yy739:
+#line 23360 "asn_compiler.hpp"
+yy742:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy754;
+		case 'n': goto yy757;
 		default: goto yy35;
 	}
-yy740:
+yy743:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -23380,21 +23429,21 @@ yy740:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		case 'I': goto yy755;
+		case 'I': goto yy758;
 		default: goto yy57;
 	}
-yy741:
+yy744:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy756;
+		case 'E': goto yy759;
 		default: goto yy35;
 	}
-yy742:
-	yyaccept = 88;
+yy745:
+	yyaccept = 89;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23458,31 +23507,31 @@ yy742:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy743;
+		default: goto yy746;
 	}
-yy743:
-#line 1931 "asn_compiler.yacc"
+yy746:
+#line 1971 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-#line 23467 "asn_compiler.hpp"
-yy744:
+#line 23516 "asn_compiler.hpp"
+yy747:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy757;
+		case 'n': goto yy760;
 		default: goto yy35;
 	}
-yy745:
+yy748:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy758;
+		case 'g': goto yy761;
 		default: goto yy35;
 	}
-yy746:
-	yyaccept = 89;
+yy749:
+	yyaccept = 90;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23546,38 +23595,38 @@ yy746:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy747;
+		default: goto yy750;
 	}
-yy747:
-#line 1943 "asn_compiler.yacc"
+yy750:
+#line 1983 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-#line 23555 "asn_compiler.hpp"
-yy748:
+#line 23604 "asn_compiler.hpp"
+yy751:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'X': goto yy760;
+		case 'X': goto yy763;
 		default: goto yy35;
 	}
-yy749:
+yy752:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy762;
+		case 'O': goto yy765;
 		default: goto yy35;
 	}
-yy750:
+yy753:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy763;
+		case 'e': goto yy766;
 		default: goto yy35;
 	}
-yy751:
-	yyaccept = 90;
+yy754:
+	yyaccept = 91;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23641,52 +23690,52 @@ yy751:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy752;
+		default: goto yy755;
 	}
-yy752:
-#line 1904 "asn_compiler.yacc"
+yy755:
+#line 1944 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-#line 23650 "asn_compiler.hpp"
-yy753:
+#line 23699 "asn_compiler.hpp"
+yy756:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'o': goto yy765;
+		case 'o': goto yy768;
 		default: goto yy35;
 	}
-yy754:
+yy757:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy766;
+		case 'g': goto yy769;
 		default: goto yy35;
 	}
-yy755:
+yy758:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy768;
+		case 'R': goto yy771;
 		default: goto yy35;
 	}
-yy756:
+yy759:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy769;
+		case 'R': goto yy772;
 		default: goto yy35;
 	}
-yy757:
+yy760:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy771;
+		case 'g': goto yy774;
 		default: goto yy35;
 	}
-yy758:
-	yyaccept = 91;
+yy761:
+	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23750,17 +23799,17 @@ yy758:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy759;
+		default: goto yy762;
 	}
-yy759:
-#line 1942 "asn_compiler.yacc"
+yy762:
+#line 1982 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-#line 23759 "asn_compiler.hpp"
-yy760:
-	yyaccept = 92;
+#line 23808 "asn_compiler.hpp"
+yy763:
+	yyaccept = 93;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23824,24 +23873,24 @@ yy760:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy761;
+		default: goto yy764;
 	}
-yy761:
-#line 1854 "asn_compiler.yacc"
+yy764:
+#line 1894 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-#line 23833 "asn_compiler.hpp"
-yy762:
+#line 23882 "asn_compiler.hpp"
+yy765:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy773;
+		case 'L': goto yy776;
 		default: goto yy35;
 	}
-yy763:
-	yyaccept = 93;
+yy766:
+	yyaccept = 94;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23905,24 +23954,24 @@ yy763:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy764;
+		default: goto yy767;
 	}
-yy764:
-#line 1888 "asn_compiler.yacc"
+yy767:
+#line 1928 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-#line 23914 "asn_compiler.hpp"
-yy765:
+#line 23963 "asn_compiler.hpp"
+yy768:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy775;
+		case 'r': goto yy778;
 		default: goto yy35;
 	}
-yy766:
-	yyaccept = 94;
+yy769:
+	yyaccept = 95;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23986,24 +24035,24 @@ yy766:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy767;
+		default: goto yy770;
 	}
-yy767:
-#line 1918 "asn_compiler.yacc"
+yy770:
+#line 1958 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-#line 23995 "asn_compiler.hpp"
-yy768:
+#line 24044 "asn_compiler.hpp"
+yy771:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy777;
+		case 'I': goto yy780;
 		default: goto yy35;
 	}
-yy769:
-	yyaccept = 95;
+yy772:
+	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -24067,17 +24116,17 @@ yy769:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy770;
+		default: goto yy773;
 	}
-yy770:
-#line 1935 "asn_compiler.yacc"
+yy773:
+#line 1975 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-#line 24076 "asn_compiler.hpp"
-yy771:
-	yyaccept = 96;
+#line 24125 "asn_compiler.hpp"
+yy774:
+	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -24141,17 +24190,17 @@ yy771:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy772;
+		default: goto yy775;
 	}
-yy772:
-#line 1939 "asn_compiler.yacc"
+yy775:
+#line 1979 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-#line 24150 "asn_compiler.hpp"
-yy773:
-	yyaccept = 97;
+#line 24199 "asn_compiler.hpp"
+yy776:
+	yyaccept = 98;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -24215,17 +24264,17 @@ yy773:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy774;
+		default: goto yy777;
 	}
-yy774:
-#line 1878 "asn_compiler.yacc"
+yy777:
+#line 1918 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-#line 24224 "asn_compiler.hpp"
-yy775:
-	yyaccept = 98;
+#line 24273 "asn_compiler.hpp"
+yy778:
+	yyaccept = 99;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -24289,17 +24338,17 @@ yy775:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy776;
+		default: goto yy779;
 	}
-yy776:
-#line 1909 "asn_compiler.yacc"
+yy779:
+#line 1949 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-#line 24298 "asn_compiler.hpp"
-yy777:
-	yyaccept = 99;
+#line 24347 "asn_compiler.hpp"
+yy780:
+	yyaccept = 100;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy78;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -24363,14 +24412,15 @@ yy777:
 		case 'x':
 		case 'y':
 		case 'z': goto yy34;
-		default: goto yy778;
+		default: goto yy781;
 	}
-yy778:
-#line 1922 "asn_compiler.yacc"
+yy781:
+#line 1962 "asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
-#line 24372 "asn_compiler.hpp"
+#line 24421 "asn_compiler.hpp"
 }
-#line 1997 "asn_compiler.yacc"
+#line 2039 "asn_compiler.yacc"
 
     }
+    }
 }
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 53a856b..eeefc44 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -222,7 +222,7 @@ int main(int argc, char** argv)
 {
     if (argc < 3)
     {
-        std::cout << "Usage: INPUT.asn... OUTPUT_NAME\n";
+        std::cerr << "Usage: INPUT.asn... OUTPUT_NAME\n";
         return -1;
     }
 
-- 
2.43.0


From 02521d634df34805bca1337a38c08bf15ef67c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:05 +0000
Subject: [PATCH 56/59] fix: T61String is a type, with the tag of TeletexString

---
 include/fast_ber/ber_types/All.hpp                       | 1 +
 include/fast_ber/ber_types/T61String.hpp                 | 5 ++---
 src/compiler/include/fast_ber/compiler/CompilerTypes.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/All.hpp b/include/fast_ber/ber_types/All.hpp
index 7825bb9..2d67bb4 100644
--- a/include/fast_ber/ber_types/All.hpp
+++ b/include/fast_ber/ber_types/All.hpp
@@ -34,6 +34,7 @@
 #include "SequenceOf.hpp"
 #include "Set.hpp"
 #include "SetOf.hpp"
+#include "T61String.hpp"
 #include "TeletexString.hpp"
 #include "Time.hpp"
 #include "TimeOfDay.hpp"
diff --git a/include/fast_ber/ber_types/T61String.hpp b/include/fast_ber/ber_types/T61String.hpp
index 166f597..1782f93 100644
--- a/include/fast_ber/ber_types/T61String.hpp
+++ b/include/fast_ber/ber_types/T61String.hpp
@@ -2,10 +2,9 @@
 
 #include "fast_ber/ber_types/StringImpl.hpp"
 #include "fast_ber/ber_types/Tag.hpp"
-#include "fast_ber/ber_types/TaggedType.hpp"
 
 namespace fast_ber
 {
-template <typename Identifier = ExplicitId<UniversalTag::visible_string>>
-using T61String = fast_ber::StringImpl<UniversalTag::visible_string, Identifier>;
+template <typename Identifier = ExplicitId<UniversalTag::teletex_string>>
+using T61String = fast_ber::StringImpl<UniversalTag::teletex_string, Identifier>;
 }
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index d772ed0..3dbfa5b 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -217,7 +217,7 @@ inline std::string to_string(CharacterStringType type)
     case CharacterStringType::teletex_string:
         return "fast_ber::TeletexString";
     case CharacterStringType::t61_string:
-        return "fast_ber::T161String";
+        return "fast_ber::T61String";
     case CharacterStringType::universal_string:
         return "fast_ber::UniversalString";
     case CharacterStringType::utf8_string:
-- 
2.43.0


From 2ec88a6b8dac1fa53fa18521290ee6acceafd85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 57/59] fix: print strings, times and reals as JSON

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 11 ++++-------
 include/fast_ber/ber_types/Real.hpp            |  7 ++++++-
 include/fast_ber/ber_types/StringImpl.hpp      | 17 ++++++++++++-----
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index f0abaf5..24e8bf0 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "fast_ber/ber_types/OctetString.hpp"
 #include "fast_ber/util/DecodeHelpers.hpp"
 #include "fast_ber/util/EncodeHelpers.hpp"
 #include "fast_ber/util/FixedIdBerContainer.hpp"
@@ -48,7 +49,7 @@ class GeneralizedTime
     explicit GeneralizedTime(BerView view) { decode(view); }
     ~GeneralizedTime() noexcept = default;
 
-    GeneralizedTime& operator=(const GeneralizedTime&) = default;
+    GeneralizedTime& operator=(const GeneralizedTime&)     = default;
     GeneralizedTime& operator=(GeneralizedTime&&) noexcept = default;
 
     size_t       encoded_length() const noexcept;
@@ -211,16 +212,12 @@ std::ostream& operator<<(std::ostream& os, const GeneralizedTime<Identifier>& ti
     absl::Time parsed;
     if (time.parse(parsed))
     {
-        return os << parsed;
+        return os << '"' << parsed << '"';
     }
 
     // Not a time, show the characters which are held
     const std::string str = time.string();
-    if (std::all_of(str.begin(), str.end(), [](unsigned char c) { return c >= 0x20 && c < 0x7F; }))
-    {
-        return os << str;
-    }
-    return os << "binary data";
+    return os << OctetString<>(str);
 }
 
 } // namespace fast_ber
diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 60641d9..5d44920 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -545,7 +545,12 @@ DecodeResult Real<Identifier>::decode(BerView input) noexcept
 template <typename Identifier>
 std::ostream& operator<<(std::ostream& os, const Real<Identifier>& object) noexcept
 {
-    return os << object.value();
+    const double value = object.value();
+    if (!std::isfinite(value))
+    {
+        return os << '"' << value << '"';
+    }
+    return os << value;
 }
 
 } // namespace fast_ber
diff --git a/include/fast_ber/ber_types/StringImpl.hpp b/include/fast_ber/ber_types/StringImpl.hpp
index d62c39d..d42bbcc 100644
--- a/include/fast_ber/ber_types/StringImpl.hpp
+++ b/include/fast_ber/ber_types/StringImpl.hpp
@@ -44,7 +44,7 @@ class StringImpl
     StringImpl& operator=(absl::string_view rhs) noexcept;
     StringImpl& operator=(absl::Span<const uint8_t> buffer) noexcept;
     StringImpl& operator=(const StringImpl& rhs) noexcept = default;
-    StringImpl& operator=(StringImpl&& rhs) noexcept = default;
+    StringImpl& operator=(StringImpl&& rhs) noexcept      = default;
 
     bool           operator==(absl::string_view view) const noexcept { return absl::string_view(*this) == view; }
     bool           operator==(const StringImpl& rhs) const noexcept;
@@ -155,14 +155,21 @@ bool StringImpl<tag, Identifier>::operator==(const char* rhs) const noexcept
 template <UniversalTag tag, typename Identifier>
 std::ostream& operator<<(std::ostream& os, const StringImpl<tag, Identifier>& str) noexcept
 {
-    if (std::all_of(str.begin(), str.end(), [](char c) { return std::isprint(c); }))
+    if (!std::all_of(str.begin(), str.end(), [](char c) { return c >= 0x20 && c < 0x7F; }))
     {
-        return os << '"' << absl::string_view(str) << '"';
+        return os << "\"binary data\"";
     }
-    else
+
+    os << '"';
+    for (const char c : absl::string_view(str))
     {
-        return os << "\"binary data\"";
+        if (c == '"' || c == '\\')
+        {
+            os << '\\';
+        }
+        os << c;
     }
+    return os << '"';
 }
 
 template <UniversalTag tag, typename Identifier>
-- 
2.43.0


From 556244911bdc4856d5a548461f3b86e2fc2188de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:18 +0000
Subject: [PATCH 58/59] fix: the viewer prints elements at any depth, reals,
 and contents only as values they decode to

---
 src/util/BerView.cpp | 219 +++++++++++++++++++++++--------------------
 1 file changed, 118 insertions(+), 101 deletions(-)

diff --git a/src/util/BerView.cpp b/src/util/BerView.cpp
index f2925f8..38b9e6b 100644
--- a/src/util/BerView.cpp
+++ b/src/util/BerView.cpp
@@ -1,8 +1,94 @@
 #include "fast_ber/util/BerView.hpp"
 #include "fast_ber/ber_types/All.hpp"
 
+#include <vector>
+
 namespace fast_ber
 {
+namespace
+{
+// Print content as the value it encodes, returns false if it is not a valid encoding of the type
+template <typename T>
+bool print_as(std::ostream& os, const BerView& view)
+{
+    T object;
+    if (!object.decode(view).success)
+    {
+        return false;
+    }
+    os << object;
+    return true;
+}
+
+bool print_universal(std::ostream& os, const BerView& view)
+{
+    switch (static_cast<UniversalTag>(view.tag()))
+    {
+    case UniversalTag::boolean:
+        return print_as<Boolean<>>(os, view);
+    case UniversalTag::integer:
+        return print_as<Integer<>>(os, view);
+    case UniversalTag::bit_string:
+        return print_as<BitString<>>(os, view);
+    case UniversalTag::octet_string:
+        return print_as<OctetString<>>(os, view);
+    case UniversalTag::null:
+        return print_as<Null<>>(os, view);
+    case UniversalTag::object_identifier:
+        return print_as<ObjectIdentifier<>>(os, view);
+    case UniversalTag::real:
+        return print_as<Real<>>(os, view);
+    case UniversalTag::enumerated:
+        return print_as<Integer<ExplicitId<UniversalTag::enumerated>>>(os, view);
+    case UniversalTag::utf8_string:
+        return print_as<UTF8String<>>(os, view);
+    case UniversalTag::numeric_string:
+        return print_as<NumericString<>>(os, view);
+    case UniversalTag::printable_string:
+        return print_as<PrintableString<>>(os, view);
+    case UniversalTag::teletex_string:
+        return print_as<TeletexString<>>(os, view);
+    case UniversalTag::videotex_string:
+        return print_as<VideotexString<>>(os, view);
+    case UniversalTag::ia5_string:
+        return print_as<IA5String<>>(os, view);
+    case UniversalTag::utc_time:
+        return print_as<UTCTime<>>(os, view);
+    case UniversalTag::generalized_time:
+        return print_as<GeneralizedTime<>>(os, view);
+    case UniversalTag::graphic_string:
+        return print_as<GraphicString<>>(os, view);
+    case UniversalTag::visible_string:
+        return print_as<VisibleString<>>(os, view);
+    case UniversalTag::general_string:
+        return print_as<GeneralString<>>(os, view);
+    case UniversalTag::universal_string:
+        return print_as<UniversalString<>>(os, view);
+    case UniversalTag::character_string:
+        return print_as<CharacterString<>>(os, view);
+    case UniversalTag::bmp_string:
+        return print_as<BMPString<>>(os, view);
+
+    case UniversalTag::embedded_pdv:
+    case UniversalTag::relative_oid:
+    case UniversalTag::sequence:
+    case UniversalTag::set:
+    case UniversalTag::reserved:
+    case UniversalTag::object_descriptor:
+    case UniversalTag::instance_of:
+    default:
+        return false;
+    }
+}
+
+void print_header(std::ostream& os, const BerView& view)
+{
+    os << "{ \"length\": " << view.ber_length();
+    os << ", \"identifier\": " << view.identifier();
+    os << ", \"content\": ";
+}
+} // namespace
+
 std::ostream& operator<<(std::ostream& os, BerView view) noexcept
 {
     if (!view.is_valid())
@@ -11,121 +97,52 @@ std::ostream& operator<<(std::ostream& os, BerView view) noexcept
         return os;
     }
 
-    os << "{ \"length\": " << view.ber_length();
-    os << ", \"identifier\": " << view.identifier();
-    os << ", \"content\": ";
-    if (view.construction() == Construction::primitive)
+    // The elements of input may be nested to any depth, keep track of the constructed elements which are being printed
+    std::vector<BerViewIterator> open;
+    BerView                      current = view;
+    while (true)
     {
-        if (view.class_() == Class::universal)
+        print_header(os, current);
+        if (current.construction() == Construction::primitive)
         {
-            try
+            if (current.class_() != Class::universal || !print_universal(os, current))
             {
-                switch (static_cast<UniversalTag>(view.tag()))
-                {
-                case UniversalTag::boolean:
-                    os << Boolean<>(view);
-                    break;
-                case UniversalTag::integer:
-                    os << Integer<>(view);
-                    break;
-                case UniversalTag::bit_string:
-                    os << BitString<>(view);
-                    break;
-                case UniversalTag::octet_string:
-                    os << OctetString<>(view);
-                    break;
-                case UniversalTag::null:
-                    os << Null<>(view);
-                    break;
-                case UniversalTag::object_identifier:
-                    os << ObjectIdentifier<>(view);
-                    break;
-                case UniversalTag::real:
-                    // os << Real<>(view);
-                    break;
-                case UniversalTag::enumerated:
-                    os << Integer<>(view);
-                    break;
-                case UniversalTag::utf8_string:
-                    os << UTF8String<>(view);
-                    break;
-                case UniversalTag::numeric_string:
-                    os << NumericString<>(view);
-                    break;
-                case UniversalTag::printable_string:
-                    os << PrintableString<>(view);
-                    break;
-                case UniversalTag::teletex_string:
-                    os << TeletexString<>(view);
-                    break;
-                case UniversalTag::videotex_string:
-                    os << VideotexString<>(view);
-                    break;
-                case UniversalTag::ia5_string:
-                    os << IA5String<>(view);
-                    break;
-                case UniversalTag::utc_time:
-                    os << UTCTime<>(view);
-                    break;
-                case UniversalTag::generalized_time:
-                    os << GeneralizedTime<>(view);
-                    break;
-                case UniversalTag::graphic_string:
-                    os << GraphicString<>(view);
-                    break;
-                case UniversalTag::visible_string:
-                    os << VisibleString<>(view);
-                    break;
-                case UniversalTag::general_string:
-                    os << GeneralString<>(view);
-                    break;
-                case UniversalTag::universal_string:
-                    os << UniversalString<>(view);
-                    break;
-                case UniversalTag::character_string:
-                    os << CharacterString<>(view);
-                    break;
-                case UniversalTag::bmp_string:
-                    os << BMPString<>(view);
-                    break;
-
-                case UniversalTag::embedded_pdv:
-                case UniversalTag::relative_oid:
-                case UniversalTag::sequence:
-                case UniversalTag::set:
-                case UniversalTag::reserved:
-                case UniversalTag::object_descriptor:
-                case UniversalTag::instance_of:
-                default:
-                    os << OctetString<>(view.content());
-                }
-            }
-            catch (const std::exception& e)
-            {
-                os << OctetString<>(view.content());
+                os << OctetString<>(current.content());
             }
+            os << " }";
         }
         else
         {
-            os << OctetString<>(view.content());
+            os << "[";
+            open.push_back(current.begin());
+            if (open.back()->is_valid())
+            {
+                current = *open.back();
+                continue;
+            }
         }
-    }
-    else
-    {
-        bool first = true;
-        os << "[";
-        for (const BerView& child : view)
+
+        // Continue with the next element of the innermost element which has one
+        while (!open.empty())
         {
-            if (!first)
+            if (open.back()->is_valid())
+            {
+                ++open.back();
+            }
+            if (open.back()->is_valid())
             {
                 os << ", ";
+                current = *open.back();
+                break;
             }
-            os << child;
-            first = false;
+            os << "] }";
+            open.pop_back();
+        }
+        if (open.empty())
+        {
+            return os;
         }
-        os << "]";
     }
-    return os << " }";
 }
 
 } // namespace fast_ber
-- 
2.43.0


From 50fbf514977a10afe4a5d56f99086169a46ec5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 59/59] fix: the viewer reports directories and failed output

---
 src/view/view.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/view/view.cpp b/src/view/view.cpp
index ddf4c36..8ba75bf 100644
--- a/src/view/view.cpp
+++ b/src/view/view.cpp
@@ -1,5 +1,6 @@
 #include "fast_ber/util/BerView.hpp"
 
+#include <exception>
 #include <fstream>
 #include <iostream>
 #include <vector>
@@ -18,17 +19,26 @@ int main(int argc, const char** argv)
         return -1;
     }
 
-    auto          input_path = std::string(argv[1]);
-    std::ifstream input(input_path, std::ios::binary);
+    auto                 input_path = std::string(argv[1]);
+    std::ifstream        input(input_path, std::ios::binary);
+    std::vector<uint8_t> buffer;
+    try
+    {
+        // Reading a directory throws
+        buffer.assign(std::istreambuf_iterator<char>(input), std::istreambuf_iterator<char>());
+    }
+    catch (const std::exception&)
+    {
+        input.setstate(std::ios::badbit);
+    }
     if (!input.good())
     {
         std::cout << "Failed to open input: " << input_path << std::endl;
         return -1;
     }
 
-    const auto buffer = std::vector<uint8_t>{std::istreambuf_iterator<char>(input), std::istreambuf_iterator<char>()};
-    auto       view   = fast_ber::BerView(buffer);
+    auto view = fast_ber::BerView(buffer);
 
-    std::cout << view;
-    return view.is_valid() ? 0 : -1;
+    std::cout << view << std::flush;
+    return view.is_valid() && std::cout.good() ? 0 : -1;
 }
-- 
2.43.0

