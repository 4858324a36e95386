From a57d0843bf4283eb06a512ecc1328a22f32134f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 01/53] fix: BerView accepted content lengths which overflow
 when added to the header length

---
 include/fast_ber/util/BerView.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 4cd7590..7553acd 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -195,12 +195,13 @@ inline void BerView::assign(absl::Span<const uint8_t> input_ber_data) noexcept
 {
     size_t input_content_length = 0;
 
-    size_t input_tag_length      = extract_tag(input_ber_data, m_tag);
-    size_t input_len_length      = extract_length(input_ber_data, input_content_length, input_tag_length);
-    size_t input_header_length   = input_tag_length + input_len_length;
-    size_t input_complete_length = input_header_length + input_content_length;
+    size_t input_tag_length    = extract_tag(input_ber_data, m_tag);
+    size_t input_len_length    = extract_length(input_ber_data, input_content_length, input_tag_length);
+    size_t input_header_length = input_tag_length + input_len_length;
 
-    if (input_tag_length == 0 || input_len_length == 0 || input_complete_length > input_ber_data.length())
+    // Compare against the octets remaining, header plus a hostile content length may exceed the range of size_t
+    if (input_tag_length == 0 || input_len_length == 0 ||
+        input_content_length > input_ber_data.length() - input_header_length)
     {
         m_header_length  = 0;
         m_content_length = 0;
-- 
2.43.0


From 678eaf4dc8540fcb23ef5afe0b1cf547c15722f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 02/53] fix: tag numbers too large for Tag overflowed and
 aliased other tags

---
 include/fast_ber/util/Extract.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fast_ber/util/Extract.hpp b/include/fast_ber/util/Extract.hpp
index dda9838..4b342fb 100644
--- a/include/fast_ber/util/Extract.hpp
+++ b/include/fast_ber/util/Extract.hpp
@@ -6,6 +6,8 @@
 
 #include "absl/types/span.h"
 
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -99,6 +101,11 @@ inline size_t extract_tag(absl::Span<const uint8_t> input, Tag& tag) noexcept
                 return i + 1;
             }
 
+            if (tag > std::numeric_limits<Tag>::max() / 0x80)
+            {
+                return 0; // Tag number can not be represented
+            }
+
             tag *= 0x80;
         }
         return 0;
-- 
2.43.0


From 2a4e162dee1cf8a018fb5fae2baa9074b47c9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 03/53] fix: REAL binary contents decoded to a wrong value or
 were refused

Only the first octet of multi octet exponents was read, three octet contents
were refused, and mantissas needing more than a 3 bit right or any left
normalisation (or longer than 7 octets) lost their value or looped.
---
 include/fast_ber/ber_types/Real.hpp | 148 +++++++---------------------
 1 file changed, 37 insertions(+), 111 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 794e3e9..dbf1300 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -76,7 +76,7 @@ inline bool check_real_binary(absl::Span<const uint8_t> input) noexcept
     /* Minimal binary construction is: | control | exponent | number |  => length is 3 bytes minimum
      * Check that base bits are not set to the reserved value, see X690 Clause 8.5.7.4
      * */
-    if (input.length() > 3 && (input[0] & 0x30) != 0x30)
+    if (input.length() >= 3 && (input[0] & 0x30) != 0x30)
     {
         /* X690 Clause 8.5.7.4 */
         size_t exponent_len    = (input[0] & 0x03) + 1;
@@ -228,7 +228,7 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
     }
 
     /* Get exponent sign */
-    int exponent = (input[exponent_offset] & 0x80) ? -1 : 0;
+    uint32_t raw_exponent = (input[exponent_offset] & 0x80) ? 0xFFFFFFFFU : 0;
 
     /* X690 Clause 8.5.7.1 */
     int mantissa_sign = ((input[0] & 0x40) >> 6) & 0x01;
@@ -240,10 +240,11 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
     int factor = (input[0] & 0x0C) >> 2;
 
     /* Read exponent */
-    for (size_t i = 0; i < exponent_offset; ++i)
+    for (size_t i = 0; i < exponent_len; ++i)
     {
-        exponent = (exponent << 8) | input[exponent_offset + i];
+        raw_exponent = (raw_exponent << 8) | input[exponent_offset + i];
     }
+    int exponent = static_cast<int>(raw_exponent);
 
     /* Convert base 8 exponent to base 2 */
     if (base == 1)
@@ -300,27 +301,31 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
         return true;
     }
 
-    /* Get Mantissa into a buffer
-     * One more byte is read because there could be a 3 or 4 bits shift, see X690 Clause 8.5.7
-     * */
-    std::array<uint8_t, 9> double_bytes    = {};
-    size_t                 mantissa_offset = exponent_len + exponent_offset;
-    size_t                 mantissa_len    = input.length() - mantissa_offset;
-
-    /* Skip leading zeros */
-    while (mantissa_len > 1 && input[mantissa_offset] == 0)
+    /* Get the leading significant octets of the mantissa, any further octets only scale the value */
+    uint64_t mantissa = 0;
+    for (size_t i = exponent_len + exponent_offset; i < input.length(); ++i)
     {
-        mantissa_offset++;
-        mantissa_len--;
+        if ((mantissa >> 56) == 0)
+        {
+            mantissa = (mantissa << 8) | input[i];
+        }
+        else
+        {
+            exponent += 8;
+        }
     }
 
-    /* Put mantissa into bytes 1 to 7 and adapt the exponent */
-    for (size_t i = 0; i < 8; i++)
+    /* For a normalized value, the mantissa size is 52 bits with an implicit hidden bit which equals 1
+     * Shift the (non zero) mantissa until bit 52 is the highest bit set. See X690 Clause 8.5.7 */
+    while ((mantissa >> 53) != 0)
     {
-        if (i < mantissa_len)
-        {
-            double_bytes[i + 1] = input[mantissa_offset + i];
-        }
+        mantissa >>= 1;
+        ++exponent;
+    }
+    while ((mantissa >> 52) == 0)
+    {
+        mantissa <<= 1;
+        --exponent;
     }
 
     /* IEEE 754 double format is: | 1 bit Sign | 11 bits exponent | 52 bits mantissa |
@@ -328,107 +333,28 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
      * Add mantissa size to the bias to get an exponent corresponding to the mantissa
      * bias = 1023 + 52 = 1075
      * */
-    exponent += ((mantissa_len - 7) << 3) + 1075;
-
-    /* For a normalized value, the mantissa size is 52 bits with an implicit hidden bit which equals 1
-     * Set double_bytes to have b0001 in the first 4 bits of the first double byte
-     * See X690 Clause 8.5.7 */
-    if ((double_bytes[1] & 0xE0) != 0 && exponent < 0x7FF)
-    {
-        /* Mantissa is too big - shift right up to 3 bits */
-        int          shift      = 0;
-        unsigned int first_byte = double_bytes[1];
+    exponent += 1075;
 
-        /* Adapt exponent */
-        while ((first_byte & 0xE0) != 0 && exponent < (0x7FF - shift))
-        {
-            first_byte >>= 1;
-            shift++;
-        }
-        exponent += shift;
-
-        /* Adapt double bytes */
-        for (int j = 7; j > 0; --j)
-        {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
-        }
-    }
-    else if ((double_bytes[1] & 0xF0) == 0 && exponent > 0)
+    /* Exponent too large for a double */
+    if (exponent >= 0x7FF)
     {
-        /* Mantissa is too small - shift left up to 4 bits */
-        int          shift      = 8;
-        unsigned int first_byte = double_bytes[1];
-
-        /* Adapt exponent */
-        while ((first_byte & 0xF0) == 0 && exponent > (8 - shift))
-        {
-            exponent -= 8 - shift;
-        }
-
-        for (int j = 1; j < 8; ++j)
-        {
-            unsigned int first_byte_shifted = static_cast<unsigned int>(double_bytes[j]) << 8;
-            double_bytes[j]                 = (first_byte_shifted | double_bytes[j + 1]) >> shift;
-        }
-    }
-
-    /* Verify that exponent does not overflow after modification */
-    if (exponent >= 0x7FF || exponent <= -55)
-    {
-        /* Exponent too large for a double */
-        if (exponent >= 0)
-        {
-            output =
-                mantissa_sign == 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
-        }
-        else
-        {
-            /* Exponent too small for a double */
-            output = mantissa_sign == 0 ? 0.0 : -0.0;
-        }
-
+        output =
+            mantissa_sign == 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
         return true;
     }
 
-    /* Normalize the value if necessary */
+    /* Denormalized value, or exponent too small for a double */
     if (exponent <= 0)
     {
-        /* correct the exponent to shift one bit more right */
-        --exponent;
-
-        /* Shift the mantissa right until exponent is 0 */
-        int shift = (-exponent) >> 3;
-        for (int j = 7; j > shift; --j)
-        {
-            double_bytes[j] = double_bytes[j - shift];
-        }
-        for (int j = shift; j > 0; --j)
-        {
-            double_bytes[j] = 0;
-        }
-        /* shift right bit by bit */
-        shift = -exponent & 0x07;
-        for (int j = 7; j > 0; --j)
-        {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
-        }
-
-        /* exponent for a denormalized value */
+        mantissa = (exponent < -52) ? 0 : (mantissa >> (1 - exponent));
         exponent = 0;
     }
 
-    /* Finally add the mantissa sign and the exponent to the double bytes */
-    double_bytes[0] = (mantissa_sign << 7) | (exponent >> 4);
-    double_bytes[1] = (exponent << 4) | (double_bytes[1] & 0x0F);
-
-#ifdef ABSL_IS_LITTLE_ENDIAN
-    /* Reverse bytes if needed */
-    std::reverse(double_bytes.begin(), double_bytes.end() - 1);
-#endif
+    /* Finally put together the sign, the exponent and the mantissa without its hidden bit */
+    const uint64_t double_bits = (static_cast<uint64_t>(mantissa_sign) << 63) |
+                                 (static_cast<uint64_t>(exponent) << 52) | (mantissa & 0xFFFFFFFFFFFFFULL);
 
-    memcpy(&output, double_bytes.data(), sizeof(double));
+    std::memcpy(&output, &double_bits, sizeof(double));
     return true;
 }
 
-- 
2.43.0


From 8c395d05b61118974bd35d4086abe6d8d737235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 04/53] fix: OBJECT IDENTIFIER components were wrong or read
 out of bounds

Reading single components returned 0 (or octets behind the content) for all but
the first, 2.48 and above were not encodable and decoded to wrong components,
negative or truncated components were accepted.
---
 .../fast_ber/ber_types/ObjectIdentifier.hpp   | 176 ++++++++++--------
 1 file changed, 97 insertions(+), 79 deletions(-)

diff --git a/include/fast_ber/ber_types/ObjectIdentifier.hpp b/include/fast_ber/ber_types/ObjectIdentifier.hpp
index 3033164..f1cf453 100644
--- a/include/fast_ber/ber_types/ObjectIdentifier.hpp
+++ b/include/fast_ber/ber_types/ObjectIdentifier.hpp
@@ -7,6 +7,9 @@
 #include "absl/container/inlined_vector.h"
 #include "absl/types/span.h"
 
+#include <algorithm>
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -60,22 +63,78 @@ class ObjectIdentifier
     FixedIdBerContainer<Identifier> m_contents;
 };
 
+namespace detail
+{
+
+// X690 Clause 8.19.4: the first two components share the first subidentifier
+inline uint64_t first_subidentifier(const ObjectIdentifierComponents& input) noexcept
+{
+    return static_cast<uint64_t>(input[0]) * 40 + static_cast<uint64_t>(input[1]);
+}
+
+inline bool is_encodable_object_id(const ObjectIdentifierComponents& input) noexcept
+{
+    return input.size() >= 2 && input[0] <= 2 && (input[0] == 2 || input[1] <= 39) &&
+           std::all_of(input.begin(), input.end(), [](int64_t component) { return component >= 0; });
+}
+
+inline size_t subidentifier_length(uint64_t subidentifier) noexcept
+{
+    size_t length = 1;
+    while (subidentifier >= 128)
+    {
+        length++;
+        subidentifier /= 128;
+    }
+    return length;
+}
+
+// Appends a component, components are limited to 63 bits
+inline bool append_component(uint64_t component, ObjectIdentifierComponents& output) noexcept
+{
+    if (component > static_cast<uint64_t>(std::numeric_limits<int64_t>::max()))
+    {
+        return false;
+    }
+    output.push_back(static_cast<int64_t>(component));
+    return true;
+}
+
+// Reads the subidentifier at position, and moves position behind it
+inline bool read_subidentifier(absl::Span<const uint8_t> input, size_t& position, uint64_t& subidentifier) noexcept
+{
+    subidentifier = 0;
+    for (size_t i = position; i < input.length(); i++)
+    {
+        // X690 Clause 8.19.2: fewest possible octets
+        if ((i == position && input[i] == 0x80) || (subidentifier >> 57) != 0)
+        {
+            return false;
+        }
+
+        subidentifier = (subidentifier << 7) | (0x7F & input[i]);
+        if (!(0x80 & input[i]))
+        {
+            position = i + 1;
+            return true;
+        }
+    }
+    return false;
+}
+
+} // namespace detail
+
 inline size_t encoded_object_id_length(const ObjectIdentifierComponents& input) noexcept
 {
-    if (input.size() < 2)
+    if (!detail::is_encodable_object_id(input))
     {
         return 0;
     }
 
-    size_t output_size = 1;
+    size_t output_size = detail::subidentifier_length(detail::first_subidentifier(input));
     for (size_t i = 2; i < input.size(); i++)
     {
-        int64_t component = input[i];
-        do
-        {
-            output_size++;
-            component /= 128;
-        } while (component > 0);
+        output_size += detail::subidentifier_length(static_cast<uint64_t>(input[i]));
     }
     return output_size;
 }
@@ -88,36 +147,23 @@ inline EncodeResult encode_object_id(absl::Span<uint8_t> output, const ObjectIde
         encoded_length = encoded_object_id_length(input);
     }
 
-    if (output.empty() || output.size() < encoded_length || input.size() < 2 || input[0] > 2 || input[1] > 39)
+    if (output.empty() || output.size() < encoded_length || !detail::is_encodable_object_id(input))
     {
         return EncodeResult{false, 0};
     }
 
-    output[0] = static_cast<uint8_t>(40 * input[0] + input[1]);
-
-    size_t output_write_pos = encoded_length - 1;
-    for (size_t i = input.size() - 1; i > 1; i--)
+    size_t output_write_pos = encoded_length;
+    for (size_t i = input.size() - 1; i > 0; i--)
     {
-        int64_t component = input[i];
-        if (component < 0)
-        {
-            return EncodeResult{false, 0};
-        }
+        uint64_t component = (i == 1) ? detail::first_subidentifier(input) : static_cast<uint64_t>(input[i]);
 
-        bool first = true;
+        uint8_t continuation = 0;
         do
         {
-            output[output_write_pos] = static_cast<uint8_t>(component % 128);
-            if (first)
-            {
-                first = false;
-            }
-            else
-            {
-                output[output_write_pos] |= 0x80;
-            }
-
             output_write_pos--;
+            output[output_write_pos] = static_cast<uint8_t>(component % 128) | continuation;
+
+            continuation = 0x80;
             component /= 128;
         } while (component > 0);
     }
@@ -127,71 +173,42 @@ inline EncodeResult encode_object_id(absl::Span<uint8_t> output, const ObjectIde
 
 inline DecodeResult decode_object_id(absl::Span<const uint8_t> input, absl::InlinedVector<int64_t, 10>& output) noexcept
 {
-    if (!output.empty())
-    {
-        output.clear();
-    }
+    output.clear();
 
-    if (input.empty())
+    size_t   position      = 0;
+    uint64_t subidentifier = 0;
+    if (!detail::read_subidentifier(input, position, subidentifier))
     {
         return DecodeResult{false};
     }
 
-    output.push_back(input[0] / 40);
-    output.push_back(input[0] % 40);
+    // X690 Clause 8.19.4: only the first component 2 allows second components above 39
+    const uint64_t first_component = std::min<uint64_t>(subidentifier / 40, 2);
+    output.push_back(static_cast<int64_t>(first_component));
+    bool success = detail::append_component(subidentifier - first_component * 40, output);
 
-    for (size_t i = 1, current_num = 0; i < input.length(); i++)
+    while (success && position < input.length())
     {
-        current_num += 0x7F & input[i];
-        if (0x80 & input[i])
-        {
-            current_num *= 0x80;
-        }
-        else
-        {
-            output.push_back(current_num);
-            current_num = 0;
-        }
+        success = detail::read_subidentifier(input, position, subidentifier) &&
+                  detail::append_component(subidentifier, output);
     }
 
-    return DecodeResult{true};
+    if (!success)
+    {
+        output.clear();
+    }
+    return DecodeResult{success};
 }
 
 inline int64_t get_component_number(absl::Span<const uint8_t> input, size_t number_of_component_to_extract) noexcept
 {
-    if (input.empty())
+    ObjectIdentifierComponents components;
+    if (!decode_object_id(input, components).success || number_of_component_to_extract >= components.size())
     {
         return -1;
     }
 
-    if (number_of_component_to_extract == 0)
-    {
-        return input[0] / 40;
-    }
-    if (number_of_component_to_extract == 1)
-    {
-        return input[1] % 40;
-    }
-
-    for (size_t i = 1, current_num = 0, current_component_number = 2; i < static_cast<size_t>(input.length()); i++)
-    {
-        current_num += 0x7F & input[i];
-        if (0x80 & input[i])
-        {
-            current_num *= 0x80;
-        }
-        else
-        {
-            current_num = 0;
-            if (current_component_number == number_of_component_to_extract)
-            {
-                return current_num;
-            }
-            current_component_number++;
-        }
-    }
-
-    return -1;
+    return components[number_of_component_to_extract];
 }
 
 inline size_t get_number_of_components(absl::Span<const uint8_t> input) noexcept
@@ -201,8 +218,9 @@ inline size_t get_number_of_components(absl::Span<const uint8_t> input) noexcept
         return 0;
     }
 
-    size_t number_of_components = 2;
-    for (size_t i = 1; i < input.length(); i++)
+    // The first subidentifier stands for two components
+    size_t number_of_components = 1;
+    for (size_t i = 0; i < input.length(); i++)
     {
         if (!(0x80 & input[i]))
         {
-- 
2.43.0


From 124b32d24f9d4ed00c4a73205de5d662e5b87b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 05/53] fix: BerContainer copies of invalid packets were valid,
 resizing miscounted padded tags

Assigning an invalid container gave a valid, empty one. The identifier length was
derived from the tag, so resizing a packet whose tag uses more octets than
necessary wrote the new length over the identifier.
---
 include/fast_ber/util/BerContainer.hpp | 12 ++++++++++++
 include/fast_ber/util/BerView.hpp      | 18 +++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index 09950d8..3def0ca 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -100,15 +100,27 @@ inline BerContainer::BerContainer(Construction input_construction, Class input_c
 
 inline BerContainer& BerContainer::operator=(const BerContainer& container) noexcept
 {
+    const bool valid = container.is_valid();
+
     m_data = container.m_data;
     m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    if (!valid)
+    {
+        m_view = MutableBerView{};
+    }
     return *this;
 }
 
 inline BerContainer& BerContainer::operator=(BerContainer&& container) noexcept
 {
+    const bool valid = container.is_valid();
+
     m_data = std::move(container.m_data);
     m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    if (!valid)
+    {
+        m_view = MutableBerView{};
+    }
     return *this;
 }
 
diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 7553acd..809b4c0 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -40,7 +40,7 @@ class BerView
     RuntimeId    identifier() const { return {class_(), tag()}; }
     Class        class_() const noexcept { return get_class(m_data[0]); }
     Tag          tag() const noexcept { return m_tag; }
-    size_t       identifier_length() const noexcept { return encoded_tag_length(tag()); }
+    size_t       identifier_length() const noexcept;
     size_t       header_length() const noexcept { return m_header_length; }
 
     absl::Span<const uint8_t> content() const noexcept { return absl::MakeSpan(content_data(), m_content_length); }
@@ -230,6 +230,22 @@ inline void BerView::assign(absl::Span<const uint8_t> input_ber_data, Tag input_
     m_tag            = input_tag;
 }
 
+// Measured rather than derived from the tag, as the tag may use more octets than necessary
+inline size_t BerView::identifier_length() const noexcept
+{
+    if (!is_valid() || (m_data[0] & 0x1F) != 0x1F)
+    {
+        return 1;
+    }
+
+    size_t length = 2;
+    while (length < m_header_length && (m_data[length - 1] & 0x80) != 0)
+    {
+        length++;
+    }
+    return length;
+}
+
 inline BerViewIterator        BerView::begin() const noexcept { return BerViewIterator{content()}; }
 inline BerViewIterator        BerView::end() const noexcept { return BerViewIterator{End::end}; }
 inline BerViewIterator        MutableBerView::cbegin() const noexcept { return BerView::begin(); }
-- 
2.43.0


From a123565c0e3c49609a3a55616066f2823a2744fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 06/53] fix: FixedIdBerContainer content was misplaced after
 moves and explicit tags with trailing elements

A moved from container kept its content length while its data was gone, and
content was taken from the end of the packet although further elements followed.
---
 include/fast_ber/util/FixedIdBerContainer.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index 8c7fb03..af210c4 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -90,8 +90,10 @@ FixedIdBerContainer<Identifier>::FixedIdBerContainer(const FixedIdBerContainer&
 
 template <typename Identifier>
 FixedIdBerContainer<Identifier>::FixedIdBerContainer(FixedIdBerContainer&& rhs) noexcept
-    : m_data(std::move(rhs.m_data)), m_content_length(std::move(rhs.m_content_length))
+    : m_data(std::move(rhs.m_data)), m_content_length(rhs.m_content_length)
 {
+    rhs.m_data.clear();
+    rhs.m_content_length = 0;
 }
 
 template <typename Identifier>
@@ -147,8 +149,13 @@ template <typename Identifier1>
 FixedIdBerContainer<Identifier1>&
 FixedIdBerContainer<Identifier1>::operator=(FixedIdBerContainer<Identifier1>&& rhs) noexcept
 {
-    m_data           = std::move(rhs.m_data);
-    m_content_length = std::move(rhs.m_content_length);
+    if (this != &rhs)
+    {
+        m_data           = std::move(rhs.m_data);
+        m_content_length = rhs.m_content_length;
+        rhs.m_data.clear();
+        rhs.m_content_length = 0;
+    }
     return *this;
 }
 
@@ -202,8 +209,8 @@ DecodeResult FixedIdBerContainer<Identifier>::decode_impl(BerView
         return DecodeResult{false};
     }
 
-    m_data.assign(input_view.ber().begin(), input_view.ber().end());
-    m_content_length = input_view.begin()->content_length();
+    // The content has to be at the end of the stored data, even if further elements follow the inner element
+    assign_content(input_view.begin()->content());
     return DecodeResult{true};
 }
 
-- 
2.43.0


From 809f810e29db058d76a207a7458dc8db962d6178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 07/53] fix: GeneralizedTime::format read out of bounds on
 short contents

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 5ffbe31..681efc6 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -105,12 +105,14 @@ void GeneralizedTime<Identifier>::set_time(const absl::Time& time, int timezone_
 template <typename Identifier>
 typename GeneralizedTime<Identifier>::TimeFormat GeneralizedTime<Identifier>::format() const
 {
-    if (m_contents.content().back() == 'Z')
+    const absl::Span<const uint8_t> content = m_contents.content();
+
+    // Contents may be of any length after a failed decode
+    if (!content.empty() && content.back() == 'Z')
     {
         return TimeFormat::universal;
     }
-    else if ((m_contents.content()[m_contents.content_length() - 5] == '-') ||
-             (m_contents.content()[m_contents.content_length() - 5] == '+'))
+    else if (content.length() >= 5 && (content[content.length() - 5] == '-' || content[content.length() - 5] == '+'))
     {
         return TimeFormat::universal_with_timezone;
     }
-- 
2.43.0


From 2400e17631208557db13dd41b34f205548968266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 08/53] fix: comparing a heap stored Optional with a value did
 not compile

---
 include/fast_ber/util/DynamicOptional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicOptional.hpp b/include/fast_ber/util/DynamicOptional.hpp
index ecd55b1..07c9fe8 100644
--- a/include/fast_ber/util/DynamicOptional.hpp
+++ b/include/fast_ber/util/DynamicOptional.hpp
@@ -96,7 +96,7 @@ class DynamicOptional
             return false;
         }
 
-        return *m_val == *rhs;
+        return *m_val == rhs;
     }
     bool operator!=(const DynamicOptional& rhs) const noexcept { return !(*this == rhs); }
     bool operator!=(const T& rhs) const noexcept { return !(*this == rhs); }
-- 
2.43.0


From 5e53513ebd15fc65d37ec9a4e1294a22ea2eb071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 09/53] fix: move assigning a heap stored Optional converted
 the source to a value

---
 include/fast_ber/ber_types/Optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Optional.hpp b/include/fast_ber/ber_types/Optional.hpp
index ae42f2e..3b06601 100644
--- a/include/fast_ber/ber_types/Optional.hpp
+++ b/include/fast_ber/ber_types/Optional.hpp
@@ -70,14 +70,14 @@ struct IdentifierType<Optional<T, s1>>
 };
 
 template <typename T, StorageMode s1>
-Optional<T, s1>::Optional(Optional<T, s1>&& rhs) noexcept : Implementation(std::move(rhs))
+Optional<T, s1>::Optional(Optional<T, s1>&& rhs) noexcept : Implementation(static_cast<Implementation&&>(rhs))
 {
 }
 
 template <typename T, StorageMode s1>
 Optional<T, s1>& Optional<T, s1>::operator=(Optional<T, s1>&& rhs) noexcept
 {
-    this->Implementation::operator=(std::move(rhs));
+    this->Implementation::operator=(static_cast<Implementation&&>(rhs));
     return *this;
 }
 
-- 
2.43.0


From 28f0fd806a30231cfbd3c059881fbf08073a1396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 10/53] fix: Default::value and comparing a literal with a
 Default did not compile

---
 include/fast_ber/ber_types/Default.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 8aa24e8..67a611e 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -41,7 +41,7 @@ struct Default
     Default& operator=(const char* val);
 
     const T&              get() const noexcept { return is_default() ? m_default : *m_item; }
-    decltype(T{}.value()) value() const noexcept(T{}.value()) { return get()->value(); }
+    decltype(T{}.value()) value() const noexcept(noexcept(T{}.value())) { return get().value(); }
     bool                  is_default() const noexcept { return !m_item; }
     void                  set_to_default() noexcept { m_item = absl::nullopt; }
 
@@ -213,7 +213,7 @@ bool operator==(const Default<T, DefaultValue>& lhs, const char* rhs)
 template <typename T, typename DefaultValue>
 bool operator==(const char* lhs, const Default<T, DefaultValue>& rhs)
 {
-    return absl::string_view(lhs) == rhs.get();
+    return rhs.get() == absl::string_view(lhs);
 }
 
 template <typename T, typename T2, typename DefaultValue>
-- 
2.43.0


From 99bed28a134fea107f92e4ca29e664cfd97cfdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 11/53] fix: Default compared against its default value before
 it was initialised

---
 include/fast_ber/ber_types/Default.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 67a611e..d17b6b5 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -50,8 +50,8 @@ struct Default
     DecodeResult decode(BerView input) noexcept;
 
   private:
+    const T           m_default = T(DefaultValue::get_value()); // Used when initialising m_item
     absl::optional<T> m_item;
-    const T           m_default = T(DefaultValue::get_value());
 };
 
 template <typename T, typename DefaultValue>
-- 
2.43.0


From 671a3005453ea24f310feb40827e92b3758900fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 12/53] fix: Default did not recognise an explicitly
 transmitted default value

---
 include/fast_ber/ber_types/Default.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index d17b6b5..88ab19f 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -153,7 +153,12 @@ DecodeResult Default<T, DefaultValue>::decode(BerView input) noexcept
     if (input.is_valid() && Identifier<T>::check_id_match(input.class_(), input.tag()))
     {
         m_item = T();
-        return m_item->decode(input);
+        const DecodeResult res = m_item->decode(input);
+        if (res.success && *m_item == m_default)
+        {
+            this->set_to_default();
+        }
+        return res;
     }
     else if (!input.is_valid())
     {
-- 
2.43.0


From efd708357baf708d6162a6eb7398f58639fe697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 13/53] fix: decoding a Default through an iterator did not
 consume the element

---
 include/fast_ber/ber_types/Default.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 88ab19f..0ea1992 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -176,7 +176,9 @@ DecodeResult decode(BerViewIterator& input, Default<T, DefaultValue>& output) no
 {
     if (input->is_valid() && Identifier<T>::check_id_match(input->class_(), input->tag()))
     {
-        return output.decode(*input);
+        const DecodeResult res = output.decode(*input);
+        ++input;
+        return res;
     }
     else
     {
-- 
2.43.0


From c49c8a4558f3bf5d8f0717ba9d5c9430df3d5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 14/53] fix: less than comparison of DynamicVariant compared
 for equality

---
 include/fast_ber/util/DynamicVariant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 0a998c0..ff51cb9 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -563,7 +563,7 @@ struct LessThan
     template <typename T>
     bool operator()(const T& lhs, const T& rhs)
     {
-        return lhs == rhs;
+        return lhs < rhs;
     }
 };
 
-- 
2.43.0


From f797a8db1786dee1bab3b2e384ca5b66142aa653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 15/53] fix: DynamicVariant used freed contents on self
 assignment, after throwing and after being moved from

---
 include/fast_ber/util/DynamicVariant.hpp | 115 +++++++++--------------
 1 file changed, 45 insertions(+), 70 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index ff51cb9..8b3183d 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -331,12 +331,12 @@ class DynamicVariant
 
     DynamicVariant() noexcept : m_data(new ToType<0>()) {}
     DynamicVariant(const DynamicVariant& other)
-        : m_index(other.m_index), m_data(fast_ber::dynamic::visit(CopyVisitor{}, other))
+        : m_index(other.m_index), m_data(copy_of(other))
     {
     }
     DynamicVariant(DynamicVariant&& other) noexcept : m_index(std::move(other.m_index)), m_data(std::move(other.m_data))
     {
-        other.m_data = nullptr;
+        other.release();
     }
 
     template <typename T, typename = absl::enable_if_t<!std::is_same<absl::decay_t<T>, DynamicVariant>::value>,
@@ -394,26 +394,17 @@ class DynamicVariant
 
     DynamicVariant& operator=(const DynamicVariant& other)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = other.m_index;
-        m_data  = fast_ber::dynamic::visit(CopyVisitor(), other);
-
+        replace(other.m_index, copy_of(other));
         return *this;
     }
 
     DynamicVariant& operator=(DynamicVariant&& other) noexcept
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = other.m_index;
-        m_data  = other.m_data;
+        const size_t index = other.m_index;
+        void* const  data  = other.m_data;
 
-        other.m_data = nullptr;
+        other.release();
+        replace(index, data);
         return *this;
     }
 
@@ -424,12 +415,7 @@ class DynamicVariant
     DynamicVariant& operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new AcceptedType<T>(std::move(t));
+        replace(AcceptedIndex<T>::value, new AcceptedType<T>(std::forward<T>(t)));
         return *this;
     }
 
@@ -437,12 +423,7 @@ class DynamicVariant
               typename = absl::enable_if_t<std::is_constructible<T, Args...>::value && ExactlyOnce<T>::value>>
     T& emplace(Args&&... args)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new AcceptedType<T>(std::forward<Args>(args)...);
+        replace(AcceptedIndex<T>::value, new AcceptedType<T>(std::forward<Args>(args)...));
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -453,12 +434,7 @@ class DynamicVariant
                                            ExactlyOnce<T>::value>>
     T& emplace(std::initializer_list<U> il, Args&&... args)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new T(std::forward<Args>(il, args)...);
+        replace(AcceptedIndex<T>::value, new T(il, std::forward<Args>(args)...));
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -471,21 +447,7 @@ class DynamicVariant
     {
         static_assert(i < sizeof...(Types), "The index should be in [0, number of alternatives)");
 
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-
-        try
-        {
-            m_index = i;
-            m_data  = new ToType<i>(std::forward<Args>(args)...);
-        }
-        catch (...)
-        {
-            m_index = variant_npos;
-            throw;
-        }
+        replace(i, new ToType<i>(std::forward<Args>(args)...));
         assert(index() == i);
         return get<i>(*this);
     }
@@ -498,21 +460,7 @@ class DynamicVariant
     {
         static_assert(i < sizeof...(Types), "The index should be in [0, number of alternatives)");
 
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-
-        try
-        {
-            m_index = i;
-            m_data  = new ToType<i>(std::forward<Args>(il, args)...);
-        }
-        catch (...)
-        {
-            m_index = variant_npos;
-            throw;
-        }
+        replace(i, new ToType<i>(il, std::forward<Args>(args)...));
         assert(index() == i);
         return get<i>(*this);
     }
@@ -540,6 +488,29 @@ class DynamicVariant
     }
 
   private:
+    static void* copy_of(const DynamicVariant& other)
+    {
+        return other.valueless_by_exception() ? nullptr : fast_ber::dynamic::visit(CopyVisitor{}, other);
+    }
+
+    // Give up ownership of the contents, leaving the variant valueless
+    void release() noexcept
+    {
+        m_index = variant_npos;
+        m_data  = nullptr;
+    }
+
+    // Take ownership of new contents, which were created while the old contents still existed
+    void replace(size_t index, void* data) noexcept
+    {
+        if (!valueless_by_exception() && m_data != nullptr)
+        {
+            fast_ber::dynamic::visit(DeleteVisitor(), *this);
+        }
+        m_index = index;
+        m_data  = data;
+    }
+
     size_t m_index{0};
     void*  m_data;
 }; // namespace fast_ber
@@ -597,37 +568,41 @@ struct GreaterThanOrEquals
 template <typename... Types>
 bool operator==(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() == b.index()) && visit_binary(Equals(), a, b);
+    return (a.index() == b.index()) && (a.valueless_by_exception() || visit_binary(Equals(), a, b));
 }
 
 template <typename... Types>
 bool operator!=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) || !visit_binary(Equals(), a, b);
+    return !(a == b);
 }
 
 template <typename... Types>
 bool operator<(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1) : visit_binary(LessThan(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1)
+                                    : (!a.valueless_by_exception() && visit_binary(LessThan(), a, b));
 }
 
 template <typename... Types>
 bool operator>(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1) : visit_binary(GreaterThan(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1)
+                                    : (!a.valueless_by_exception() && visit_binary(GreaterThan(), a, b));
 }
 
 template <typename... Types>
 bool operator<=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1) : visit_binary(LessThanOrEquals(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1)
+                                    : (a.valueless_by_exception() || visit_binary(LessThanOrEquals(), a, b));
 }
 
 template <typename... Types>
 bool operator>=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1) : visit_binary(GreaterThanOrEquals(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1)
+                                    : (a.valueless_by_exception() || visit_binary(GreaterThanOrEquals(), a, b));
 }
 
 } // namespace dynamic
-- 
2.43.0


From 558a6b88c3608fb86c61a0ef35ba39274df9c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 16/53] fix: apply automatic tags to references to defined
 types and to optional component checks

Automatic tagging was only applied when naming the C++ type of a component:
components referring to another SEQUENCE, SET or CHOICE were encoded without
their tag, optional and default components were looked up by their untagged
identifier and thus never decoded, and the outermost tag of an explicitly
tagged type was not preserved. Components with tags of their own now disable
automatic tagging of that type, in every place alike.
---
 src/compiler/EncodeDecode.cpp                 | 74 +++++++++++++------
 src/compiler/GenerateChoice.cpp               |  6 +-
 src/compiler/Identifier.cpp                   | 53 ++++++++++---
 src/compiler/TypeAsString.cpp                 | 11 +--
 .../include/fast_ber/compiler/Identifier.hpp  |  9 +++
 5 files changed, 113 insertions(+), 40 deletions(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 16501f4..b1d3773 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -11,12 +11,13 @@
 #include <string>
 #include <vector>
 
-std::string make_component_function(const std::string& function, const NamedType& component, const Module& module,
-                                    const Asn1Tree& tree)
+std::string make_component_function(const std::string& function, const NamedType& component, bool automatic_tagging,
+                                    std::size_t component_index, const Module& module, const Asn1Tree& tree)
 {
     if (is_generated(resolve_type(tree, module.module_reference, component).type))
     {
-        auto id = identifier(component.type, module, tree);
+        auto id = automatic_tagging ? automatic_identifier(component.type, component_index, module, tree)
+                                    : identifier(component.type, module, tree);
         if (!id.is_default_tagged)
             return function + "_with_id<" + id.name() + ">";
     }
@@ -27,7 +28,8 @@ template <typename CollectionType>
 CodeBlock create_collection_encode_functions(const std::string& name, const CollectionType& collection,
                                              const Module& module, const Asn1Tree& tree)
 {
-    CodeBlock block;
+    CodeBlock  block;
+    const bool automatic_tagging = is_automatically_tagged(collection, module);
 
     block.add_line(create_template_definition({"Identifier_"}));
     block.add_line("inline EncodeResult " + name + "::encode_with_id(absl::Span<uint8_t> output) const noexcept");
@@ -49,10 +51,12 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
         }
         block.add_line("std::size_t content_length = 0;");
 
+        std::size_t i = 0;
         for (const ComponentType& component : collection.components)
         {
             block.add_line("res = " + component.named_type.name + "." +
-                           make_component_function("encode", component.named_type, module, tree) + "(content);");
+                           make_component_function("encode", component.named_type, automatic_tagging, i, module, tree) +
+                           "(content);");
             block.add_line("if (!res.success)");
             {
                 auto scope2 = CodeScope(block);
@@ -60,6 +64,7 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
             }
             block.add_line("content.remove_prefix(res.length);");
             block.add_line("content_length += res.length;");
+            ++i;
         }
         block.add_line("return wrap_with_ber_header(output, content_length, Identifier_{}, header_length_guess);");
     }
@@ -71,10 +76,14 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
         auto scope = CodeScope(block);
         block.add_line("std::size_t content_length = 0;");
         block.add_line();
+        std::size_t i = 0;
         for (const ComponentType& component : collection.components)
         {
-            block.add_line("content_length += this->" + component.named_type.name + "." +
-                           make_component_function("encoded_length", component.named_type, module, tree) + "();");
+            block.add_line(
+                "content_length += this->" + component.named_type.name + "." +
+                make_component_function("encoded_length", component.named_type, automatic_tagging, i, module, tree) +
+                "();");
+            ++i;
         }
         block.add_line();
         block.add_line("return fast_ber::encoded_length(content_length, Identifier_{});");
@@ -86,7 +95,8 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
 CodeBlock create_choice_encode_functions(const std::string& name, const ChoiceType& choice, const Module& module,
                                          const Asn1Tree& tree)
 {
-    CodeBlock block;
+    CodeBlock  block;
+    const bool automatic_tagging = is_automatically_tagged(choice, module);
 
     block.add_line(create_template_definition({"Identifier_"}));
     block.add_line("inline EncodeResult " + name + "::encode_with_id(absl::Span<uint8_t> output) const noexcept");
@@ -117,7 +127,8 @@ CodeBlock create_choice_encode_functions(const std::string& name, const ChoiceTy
             {
                 block.add_line("case " + std::to_string(i) + ":");
                 block.add_line("	res = fast_ber::get<" + std::to_string(i) + ">(*this)." +
-                               make_component_function("encode", choice.choices[i], module, tree) + "(content);");
+                               make_component_function("encode", choice.choices[i], automatic_tagging, i, module, tree) +
+                               "(content);");
                 block.add_line("	break;");
             }
             block.add_line("default: assert(0);");
@@ -155,8 +166,10 @@ CodeBlock create_choice_encode_functions(const std::string& name, const ChoiceTy
             for (std::size_t i = 0; i < choice.choices.size(); i++)
             {
                 block.add_line("case " + std::to_string(i) + ":");
-                block.add_line("	content_length = fast_ber::get<" + std::to_string(i) + ">(*this)." +
-                               make_component_function("encoded_length", choice.choices[i], module, tree) + "();");
+                block.add_line(
+                    "	content_length = fast_ber::get<" + std::to_string(i) + ">(*this)." +
+                    make_component_function("encoded_length", choice.choices[i], automatic_tagging, i, module, tree) +
+                    "();");
                 block.add_line("	break;");
             }
             block.add_line("default: assert(0);");
@@ -182,7 +195,9 @@ template <typename CollectionType>
 CodeBlock create_collection_decode_functions(const std::string& name, const CollectionType& collection,
                                              const Module& module, const Asn1Tree& tree)
 {
-    CodeBlock block;
+    CodeBlock  block;
+    const bool automatic_tagging = is_automatically_tagged(collection, module);
+
     block.add_line(create_template_definition({"Identifier_"}));
     block.add_line("DecodeResult " + name + "::decode_with_id(BerView input) noexcept");
     {
@@ -219,7 +234,7 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                 block.add_line("while (iterator != end)");
                 {
                     auto scope2 = CodeScope(block);
-                    if (module.tagging_default == TaggingMode::automatic)
+                    if (automatic_tagging)
                     {
                         block.add_line("if (iterator->class_() == " + to_string(Class::context_specific) + ")");
                         auto scope3 = CodeScope(block);
@@ -231,7 +246,8 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                             {
                                 block.add_line("case " + std::to_string(i) + ":");
                                 block.add_line("res = this->" + component.named_type.name + "." +
-                                               make_component_function("decode", component.named_type, module, tree) +
+                                               make_component_function("decode", component.named_type,
+                                                                       automatic_tagging, i, module, tree) +
                                                "(*iterator);");
                                 block.add_line("if (!res.success)");
                                 {
@@ -286,7 +302,8 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                                                 block.add_line("case " + std::to_string(id.tag_number) + ":");
                                                 block.add_line("res = this->" + component.named_type.name + "." +
                                                                make_component_function("decode", component.named_type,
-                                                                                       module, tree) +
+                                                                                       automatic_tagging, i, module,
+                                                                                       tree) +
                                                                "(*iterator);");
 
                                                 block.add_line("if (!res.success)");
@@ -356,12 +373,18 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
             }
             else
             {
+                std::size_t i = 0;
                 for (const ComponentType& component : collection.components)
                 {
                     if (component.is_optional || component.default_value)
                     {
+                        const std::vector<Identifier> ids =
+                            automatic_tagging
+                                ? automatic_identifier(component.named_type.type, i, module, tree).outer_tags()
+                                : outer_identifiers(component.named_type.type, module, tree);
+
                         std::string id_check = "if (iterator->is_valid() && (false ";
-                        for (const Identifier& id : outer_identifiers(component.named_type.type, module, tree))
+                        for (const Identifier& id : ids)
                         {
                             id_check += " || " + id.name() + "::check_id_match(iterator->class_(), iterator->tag())";
                         }
@@ -371,7 +394,8 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                         {
                             auto scope2 = CodeScope(block);
                             block.add_line("res = this->" + component.named_type.name + "." +
-                                           make_component_function("decode", component.named_type, module, tree) +
+                                           make_component_function("decode", component.named_type, automatic_tagging,
+                                                                   i, module, tree) +
                                            "(*iterator);");
 
                             block.add_line("if (!res.success)");
@@ -403,7 +427,8 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                     else
                     {
                         block.add_line("res = this->" + component.named_type.name + "." +
-                                       make_component_function("decode", component.named_type, module, tree) +
+                                       make_component_function("decode", component.named_type, automatic_tagging, i,
+                                                               module, tree) +
                                        "(*iterator);");
 
                         block.add_line("if (!res.success)");
@@ -415,6 +440,7 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                         }
                         block.add_line("++iterator;");
                     }
+                    ++i;
                 }
             }
         }
@@ -427,7 +453,8 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
 CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceType& choice, const Module& module,
                                          const Asn1Tree& tree)
 {
-    CodeBlock block;
+    CodeBlock  block;
+    const bool automatic_tagging = is_automatically_tagged(choice, module);
 
     block.add_line(create_template_definition({"Identifier"}));
     block.add_line("inline DecodeResult " + name + "::decode_with_id(BerView input) noexcept");
@@ -464,7 +491,7 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
             block.add_line("content = *child;");
         }
 
-        if (module.tagging_default == TaggingMode::automatic)
+        if (automatic_tagging)
         {
             block.add_line("switch (content.tag())");
             {
@@ -473,7 +500,9 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
                 {
                     block.add_line("case " + std::to_string(i) + ":");
                     block.add_line("	return this->template emplace<" + std::to_string(i) + ">()." +
-                                   make_component_function("decode", choice.choices[i], module, tree) + "(content);");
+                                   make_component_function("decode", choice.choices[i], automatic_tagging, i, module,
+                                                           tree) +
+                                   "(content);");
                 }
             }
         }
@@ -502,7 +531,8 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
                             {
                                 block.add_line("case " + std::to_string(id.tag_number) + ":");
                                 block.add_line("	return this->template emplace<" + std::to_string(i) + ">()." +
-                                               make_component_function("decode", choice.choices[i], module, tree) +
+                                               make_component_function("decode", choice.choices[i], automatic_tagging,
+                                                                       i, module, tree) +
                                                "(content);");
                             }
                         }
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index bdf4e9e..31158d1 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -28,12 +28,12 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
     {
         CodeScope scope(block, true);
 
-        int64_t tag_counter = 0;
+        std::size_t choice_index = 0;
         for (const auto& named_type : choice.choices)
         {
-            if (module.tagging_default == TaggingMode::automatic)
+            if (is_automatically_tagged(choice, module))
             {
-                std::string choice_id = Identifier(Class::context_specific, tag_counter++).name();
+                std::string choice_id = automatic_identifier(named_type.type, choice_index++, module, tree).name();
                 block.add_block(create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree,
                                                        choice_id, false));
             }
diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index f495896..784d687 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -3,6 +3,46 @@
 
 #include "absl/container/flat_hash_set.h"
 
+#include <algorithm>
+
+template <typename Collection>
+static bool is_collection_automatically_tagged(const Collection& collection, const Module& module)
+{
+    return module.tagging_default == TaggingMode::automatic &&
+           std::none_of(collection.components.begin(), collection.components.end(),
+                        [](const ComponentType& component) { return is_prefixed(component.named_type.type); });
+}
+
+bool is_automatically_tagged(const SequenceType& sequence, const Module& module)
+{
+    return is_collection_automatically_tagged(sequence, module);
+}
+
+bool is_automatically_tagged(const SetType& set, const Module& module)
+{
+    return is_collection_automatically_tagged(set, module);
+}
+
+bool is_automatically_tagged(const ChoiceType& choice, const Module& module)
+{
+    return module.tagging_default == TaggingMode::automatic &&
+           std::none_of(choice.choices.begin(), choice.choices.end(),
+                        [](const NamedType& named_type) { return is_prefixed(named_type.type); });
+}
+
+TaggingInfo automatic_identifier(const Type& type, std::size_t component_index, const Module& module,
+                                 const Asn1Tree& tree)
+{
+    const Identifier  automatic_id = Identifier(Class::context_specific, static_cast<int64_t>(component_index));
+    const TaggingInfo info         = identifier(type, module, tree);
+    if (info.outer_tag)
+    {
+        // Implicit tagging only replaces the outermost tag
+        return TaggingInfo{automatic_id, info.inner_tag, {}, false};
+    }
+    return TaggingInfo{{}, automatic_id, {}, false};
+}
+
 TaggingInfo identifier(const AnyType&, const Module&, const Asn1Tree&)
 {
     TaggingInfo info;
@@ -38,18 +78,11 @@ TaggingInfo identifier(const ChoiceType& choice, const Module& module, const Asn
     TaggingInfo info;
     info.is_default_tagged = true;
 
-    if (module.tagging_default == TaggingMode::automatic)
+    if (is_automatically_tagged(choice, module))
     {
         for (size_t i = 0; i < choice.choices.size(); i++)
         {
-            if (is_prefixed(choice.choices[i].type))
-            {
-                info.choice_ids.push_back(outer_identifiers(choice.choices[i].type, module, tree)[0]);
-            }
-            else
-            {
-                info.choice_ids.push_back(Identifier{Class::context_specific, static_cast<int64_t>(i)});
-            }
+            info.choice_ids.push_back(Identifier{Class::context_specific, static_cast<int64_t>(i)});
         }
     }
     else
@@ -271,7 +304,7 @@ std::vector<Identifier> outer_identifiers(const CharacterStringType& type, const
 std::vector<Identifier> outer_identifiers(const ChoiceType& choice, const Module& module, const Asn1Tree& tree)
 {
     std::vector<Identifier> ids;
-    if (module.tagging_default == TaggingMode::automatic)
+    if (is_automatically_tagged(choice, module))
     {
         for (size_t i = 0; i < choice.choices.size(); i++)
         {
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index cc443b4..8dece2f 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -47,14 +47,15 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
             block.add_line();
         }
 
-        int64_t tag_counter = 0;
+        std::size_t component_index = 0;
 
         // Define child types
         for (const ComponentType& component : collection.components)
         {
-            if (module.tagging_default == TaggingMode::automatic)
+            if (is_automatically_tagged(collection, module))
             {
-                std::string id = Identifier(Class::context_specific, tag_counter++).name();
+                std::string id =
+                    automatic_identifier(component.named_type.type, component_index++, module, tree).name();
                 block.add_block(create_type_assignment(make_type_name(component.named_type.name, type_name),
                                                        component.named_type.type, module, tree, id, false));
             }
@@ -231,7 +232,7 @@ std::string type_as_string(const RelativeOIDType& type, const Module& module, co
 void check_valid(const SequenceType& sequence, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
 
-    if (module.tagging_default != TaggingMode::automatic)
+    if (!is_automatically_tagged(sequence, module))
     {
         std::vector<Identifier>     previous_optional_ids;
         absl::optional<std::string> previous_optional_type;
@@ -287,7 +288,7 @@ std::string type_as_string(const SequenceOfType& sequence, const Module&, const
 }
 void check_valid(const SetType& set, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
-    if (module.tagging_default != TaggingMode::automatic)
+    if (!is_automatically_tagged(set, module))
     {
         absl::flat_hash_set<Identifier> ids;
         for (const ComponentType& component : set.components)
diff --git a/src/compiler/include/fast_ber/compiler/Identifier.hpp b/src/compiler/include/fast_ber/compiler/Identifier.hpp
index d16d7b1..de32388 100644
--- a/src/compiler/include/fast_ber/compiler/Identifier.hpp
+++ b/src/compiler/include/fast_ber/compiler/Identifier.hpp
@@ -4,6 +4,15 @@
 #include "fast_ber/compiler/ResolveType.hpp"
 #include "fast_ber/compiler/TypeAsString.hpp"
 
+// Automatic tagging replaces the tags of the components of a type in a module with AUTOMATIC TAGS, unless one of the
+// components has been tagged explicitly by the specification (X.680 25.2, 27.2, 29.2)
+bool is_automatically_tagged(const SequenceType&, const Module&);
+bool is_automatically_tagged(const SetType&, const Module&);
+bool is_automatically_tagged(const ChoiceType&, const Module&);
+
+// Identifier of an automatically tagged component
+TaggingInfo automatic_identifier(const Type& type, std::size_t component_index, const Module&, const Asn1Tree&);
+
 TaggingInfo identifier(const AnyType&, const Module&, const Asn1Tree&);
 TaggingInfo identifier(const BitStringType&, const Module&, const Asn1Tree&);
 TaggingInfo identifier(const BooleanType&, const Module&, const Asn1Tree&);
-- 
2.43.0


From c26ba646ab2585bbbdb5b11182f0d8188f0e7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 17/53] fix: tags are implicit by default in modules with
 AUTOMATIC TAGS

---
 src/compiler/Identifier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index 784d687..e3777f6 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -215,8 +215,8 @@ TaggingInfo identifier(const TaggedType& tagged_type, const Module& current_modu
     }
     else
     {
-        is_explicit = (current_module.tagging_default == TaggingMode::explicit_ ||
-                       current_module.tagging_default == TaggingMode::automatic);
+        // Tags are implicit by default in modules with AUTOMATIC TAGS (X.680 31.2.7)
+        is_explicit = (current_module.tagging_default == TaggingMode::explicit_);
     }
 
     const TaggingInfo& child_tag = identifier(tagged_type.type, current_module, tree);
-- 
2.43.0


From a15d7108e8eb4b1dab3a70051731a7081bf4204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 18/53] fix: generated CHOICE decoders refuse invalid packets
 and compare the class as well as the tag number

---
 src/compiler/EncodeDecode.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index b1d3773..7d377c5 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -490,12 +490,20 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
             }
             block.add_line("content = *child;");
         }
+        block.add_line("else if (!input.is_valid())");
+        {
+            auto scope2 = CodeScope(block);
+            block.add_line(R"(FAST_BER_ERROR("Invalid packet when decoding choice [)" + name + R"(]");)");
+            block.add_line("return DecodeResult{false};");
+        }
 
         if (automatic_tagging)
         {
+            block.add_line("if (content.class_() == " + to_string(Class::context_specific) + ")");
+            auto scope2 = CodeScope(block);
             block.add_line("switch (content.tag())");
             {
-                auto scope2 = CodeScope(block);
+                auto scope3 = CodeScope(block);
                 for (std::size_t i = 0; i < choice.choices.size(); i++)
                 {
                     block.add_line("case " + std::to_string(i) + ":");
@@ -519,8 +527,10 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
                 if (std::any_of(outer_ids.begin(), outer_ids.end(),
                                 [class_](const Identifier& id) { return id.class_ == class_; }))
                 {
+                    block.add_line("if (content.class_() == " + to_string(class_) + ")");
+                    auto scope2 = CodeScope(block);
                     block.add_line("switch (content.tag())");
-                    auto        scope2 = CodeScope(block);
+                    auto        scope3 = CodeScope(block);
                     std::size_t i      = 0;
                     for (const NamedType& named_type : choice.choices)
                     {
-- 
2.43.0


From 58f02e2a358e7b582185b1f574935386e9970f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 19/53] fix: explicit tags of a CHOICE enclose the identifier
 of the selected alternative only

---
 src/compiler/Identifier.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index e3777f6..0753e1a 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -220,7 +220,9 @@ TaggingInfo identifier(const TaggedType& tagged_type, const Module& current_modu
     }
 
     const TaggingInfo& child_tag = identifier(tagged_type.type, current_module, tree);
-    if (is_explicit || child_tag.outer_tag)
+    // Choices have no tag of their own, the tag wraps the identifier of the selected alternative
+    const bool is_untagged_choice = !child_tag.outer_tag && !child_tag.choice_ids.empty();
+    if ((is_explicit && !is_untagged_choice) || child_tag.outer_tag)
     {
         return TaggingInfo{
             Identifier(tagged_type.tag.class_, tagged_type.tag.tag_number), child_tag.inner_tag, {}, false};
-- 
2.43.0


From 6e59fc8191ba1d1330f532075630e74952f30709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 20/53] fix: tags of references to SEQUENCE, SET and CHOICE
 types are kept in assignments and SEQUENCE OF elements

---
 include/fast_ber/util/Alias.hpp | 31 +++++++++++++++++++++++++++++++
 src/compiler/TypeAsString.cpp   | 23 ++++++++++++++++++++---
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/include/fast_ber/util/Alias.hpp b/include/fast_ber/util/Alias.hpp
index 9caba9d..22803ea 100644
--- a/include/fast_ber/util/Alias.hpp
+++ b/include/fast_ber/util/Alias.hpp
@@ -15,3 +15,34 @@
         AliasedType&       get_base() { return *this; }                                                                \
         const AliasedType& get_base() const { return *this; }                                                          \
     }
+
+// Alias of a generated type which is encoded under an identifier of its own
+#define FAST_BER_TAGGED_ALIAS(X, BASE, ...)                                                                            \
+    struct X : BASE                                                                                                    \
+    {                                                                                                                  \
+        using AliasedType = BASE;                                                                                      \
+        using AliasedType::AliasedType;                                                                                \
+        using AliasedType::operator=;                                                                                  \
+        X()         = default;                                                                                         \
+        X(const X&) = default;                                                                                         \
+        X(X&&)      = default;                                                                                         \
+        X(const AliasedType& a) : AliasedType(a) {}                                                                    \
+        X(AliasedType&& a) : AliasedType(std::move(a)) {}                                                              \
+        X&                 operator=(const X&) = default;                                                              \
+        AliasedType&       get_base() { return *this; }                                                                \
+        const AliasedType& get_base() const { return *this; }                                                          \
+                                                                                                                       \
+        using AsnId = __VA_ARGS__;                                                                                     \
+        std::size_t encoded_length() const noexcept                                                                    \
+        {                                                                                                              \
+            return AliasedType::template encoded_length_with_id<AsnId>();                                              \
+        }                                                                                                              \
+        EncodeResult encode(absl::Span<uint8_t> output) const noexcept                                                 \
+        {                                                                                                              \
+            return AliasedType::template encode_with_id<AsnId>(output);                                                \
+        }                                                                                                              \
+        DecodeResult decode(BerView input) noexcept                                                                    \
+        {                                                                                                              \
+            return AliasedType::template decode_with_id<AsnId>(input);                                                 \
+        }                                                                                                              \
+    }
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 8dece2f..1585443 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -389,6 +389,12 @@ std::string type_as_string(const Type& type, const Module& module, const Asn1Tre
     return absl::visit(string_helper, type);
 }
 
+// Elements of a collection which are references to a generated type, with a tag of their own
+static bool is_tagged_generated(const Type& type, const Module& module, const Asn1Tree& tree)
+{
+    return is_prefixed(type) && is_generated(resolve_type(tree, module.module_reference, NamedType{"", type}).type);
+}
+
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
                                  const Asn1Tree& tree, const std::string& identifier_override, bool introduce_type)
 {
@@ -415,13 +421,15 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     {
         const SetOfType& sequence = absl::get<SetOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&      type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {},
+                                               is_tagged_generated(type, module, tree)));
     }
     else if (is_sequence_of(assignment_type))
     {
         const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&           type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {},
+                                               is_tagged_generated(type, module, tree)));
     }
     else if (is_set(assignment_type))
     {
@@ -470,7 +478,16 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
                                resolved.module.module_reference + "::" + defined_type.type_reference + "Values;");
             }
         }
-        if (introduce_type)
+        const bool is_tagged_reference =
+            !identifier_override.empty() && is_defined(assignment_type) &&
+            is_generated(
+                resolve_type(tree, module.module_reference, absl::get<DefinedType>(assignment_type)).type);
+        if (introduce_type && is_tagged_reference)
+        {
+            block.add_line("FAST_BER_TAGGED_ALIAS(" + name + ", " +
+                           type_as_string(assignment_type, module, tree, name, id) + ", " + id + ");");
+        }
+        else if (introduce_type)
         {
             block.add_line("FAST_BER_ALIAS(" + name + ", " + type_as_string(assignment_type, module, tree, name, id) +
                            ");");
-- 
2.43.0


From 71e7e477b67499e40fdb66e423d59928e7e87a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 21/53] fix: refuse SEQUENCE, SET and SEQUENCE OF contents that
 end in a malformed or truncated element

---
 include/fast_ber/ber_types/SequenceOf.hpp | 9 +++++----
 include/fast_ber/util/BerView.hpp         | 3 +++
 src/compiler/EncodeDecode.cpp             | 6 ++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/SequenceOf.hpp b/include/fast_ber/ber_types/SequenceOf.hpp
index d0ec79e..99327d8 100644
--- a/include/fast_ber/ber_types/SequenceOf.hpp
+++ b/include/fast_ber/ber_types/SequenceOf.hpp
@@ -128,17 +128,18 @@ DecodeResult SequenceOf<T, I, s>::decode(BerView input) noexcept
         return DecodeResult{false};
     }
 
-    BerView child_range = (I::depth() == 1) ? input : *input.begin();
-    for (const BerView child : child_range)
+    BerView         child_range = (I::depth() == 1) ? input : *input.begin();
+    BerViewIterator child       = child_range.begin();
+    for (; child->is_valid(); ++child)
     {
         this->emplace_back();
-        bool success = this->back().decode(child).success;
+        bool success = this->back().decode(*child).success;
         if (!success)
         {
             return DecodeResult{false};
         }
     }
-    return DecodeResult{true};
+    return DecodeResult{child.at_end()};
 }
 
 template <typename T, typename I, StorageMode s1>
diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 809b4c0..ad35918 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -105,6 +105,9 @@ class BerViewIterator
     const BerView& operator*() const noexcept { return m_view; }
     const BerView* operator->() const noexcept { return &m_view; }
 
+    // True if no octets are left. An invalid view before the end marks a malformed or truncated element
+    bool at_end() const noexcept { return m_buffer.empty(); }
+
     friend bool operator==(const BerViewIterator& lhs, const BerViewIterator& rhs) noexcept
     {
         if (!lhs.m_view.is_valid() && !rhs.m_view.is_valid())
diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 7d377c5..0161698 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -443,6 +443,12 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                     ++i;
                 }
             }
+            block.add_line("if (!iterator->is_valid() && !iterator.at_end())");
+            {
+                auto scope2 = CodeScope(block);
+                block.add_line(R"(FAST_BER_ERROR("Malformed member when decoding collection [)" + name + R"(]");)");
+                block.add_line("return DecodeResult{false};");
+            }
         }
         block.add_line("return DecodeResult{true};");
     }
-- 
2.43.0


From 06ede5ed4357e8d74f944eff0bc973ee4b8fd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 22/53] fix: reading a REAL whose content is a lone
 decimal-form octet stays inside the content

---
 src/ber_types/Real.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber_types/Real.cpp b/src/ber_types/Real.cpp
index 011a35b..5501381 100644
--- a/src/ber_types/Real.cpp
+++ b/src/ber_types/Real.cpp
@@ -17,7 +17,7 @@ const std::regex g_iso_6093_nr3{"^[ ]*[+-]?([0-9]+[\\.\\,]{1}[0-9]*|[0-9]*[\\.\\
  */
 bool decode_real_decimal(absl::Span<const uint8_t> input, double& output) noexcept
 {
-    std::string iso_6093_value(reinterpret_cast<const char*>(&input[1]), input.length() - 1);
+    std::string iso_6093_value(reinterpret_cast<const char*>(input.data() + 1), input.length() - 1);
 
     /* Check that string matches the iso 6093 NR1/NR2/NR3 forms */
     if (std::regex_match(iso_6093_value, g_iso_6093_nr1) || std::regex_match(iso_6093_value, g_iso_6093_nr2) ||
-- 
2.43.0


From b11b9b0ca095d2ce611c249f8c4ca557bbcc3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 23/53] fix: tagged references to types of an imported module
 were looked up in the importing module

---
 src/compiler/ResolveType.cpp | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index 18cdd19..bd515bc 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -170,33 +170,19 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
         {
             throw std::runtime_error("Defined must be a type in this context! " + original_defined.type_reference);
         }
-        if (is_defined(type(assignment)))
+        Type resolved_type = type(assignment);
+        while (is_prefixed(resolved_type))
         {
-            if (defined.module_reference)
-            {
-                module = *defined.module_reference;
-            }
-            defined = absl::get<DefinedType>(type(assignment));
-        }
-        else if (is_prefixed(type(assignment)))
-        {
-            PrefixedType prefixed = absl::get<PrefixedType>(absl::get<BuiltinType>(type(assignment)));
-            if (is_defined(prefixed.tagged_type->type))
-            {
-                NamedTypeAndModule const& inner = resolve_type_and_module(
-                    tree, current_module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
-                prefixed.tagged_type->type = inner.type.type;
-                return {NamedType{assignment.name, prefixed}, inner.module};
-            }
-            else
-            {
-                return {NamedType{assignment.name, type(assignment)}, working_module};
-            }
+            const Type untagged_type = absl::get<PrefixedType>(absl::get<BuiltinType>(resolved_type)).tagged_type->type;
+            resolved_type            = untagged_type;
         }
-        else
+        if (!is_defined(resolved_type))
         {
-            return {NamedType{assignment.name, type(assignment)}, working_module};
+            return {NamedType{assignment.name, resolved_type}, working_module};
         }
+        // References are relative to the module which contains them
+        module  = working_module.module_reference;
+        defined = absl::get<DefinedType>(resolved_type);
     }
 }
 
-- 
2.43.0


From e79a6f56ecd4a9a40fe8b1cc8a7b8e132eb0acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 24/53] fix: references to imported or tagged SEQUENCE OF and
 ENUMERATED types named undeclared C++ types

---
 src/compiler/TypeAsString.cpp | 35 ++++++++++++++++++++++++++++-------
 src/compiler/ValueType.cpp    |  6 ++++--
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 1585443..2d6c015 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -17,6 +17,24 @@ std::string identifier_template_params(const Type&, const Module&, const Asn1Tre
     return "<" + identifier_override + ">";
 }
 
+// Concrete type of a component, with the qualified name of the type if it is a reference
+static NamedType resolve_named_type(const NamedType& component, const Module& module, const Asn1Tree& tree)
+{
+    if (is_defined(component.type))
+    {
+        NamedTypeAndModule const& resolved = resolve_type_and_module(tree, module.module_reference, component);
+        return NamedType{"::fast_ber::" + resolved.module.module_reference + "::" + resolved.type.name,
+                         resolved.type.type};
+    }
+    if (is_prefixed(component.type))
+    {
+        return resolve_named_type(
+            NamedType{component.name, absl::get<PrefixedType>(absl::get<BuiltinType>(component.type)).tagged_type->type},
+            module, tree);
+    }
+    return component;
+}
+
 template <typename Collection>
 CodeBlock create_collection_definition(const Collection& collection, const Module& module, const Asn1Tree& tree,
                                        const std::string& type_name, const std::string& identifier_override)
@@ -36,7 +54,7 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
                 block.add_line("struct DefaultValue" + name + " { constexpr static " +
                                value_type(component.named_type.type, module, tree, component.named_type.name, {}) +
                                " get_value() noexcept { return " +
-                               value_as_string(resolve_type(tree, module.module_reference, component.named_type),
+                               value_as_string(resolve_named_type(component.named_type, module, tree),
                                                *component.default_value) +
                                "; } };");
                 has_defaults = true;
@@ -346,10 +364,12 @@ std::string type_as_string(const DefinedType& defined_type, const Module& module
 {
     if (!identifier_override.empty())
     {
-        NamedType resolved = resolve_type(tree, module.module_reference, defined_type);
-        if (!is_generated(resolved.type))
+        NamedTypeAndModule const& resolved = resolve_type_and_module(tree, module.module_reference, defined_type);
+        if (!is_generated(resolved.type.type))
         {
-            return type_as_string(resolved.type, module, tree, defined_type.type_reference, identifier_override);
+            return type_as_string(resolved.type.type, resolved.module, tree,
+                                  "::fast_ber::" + resolved.module.module_reference + "::" + resolved.type.name,
+                                  identifier_override);
         }
     }
 
@@ -472,10 +492,11 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
         {
             DefinedType const&        defined_type = absl::get<DefinedType>(assignment_type);
             NamedTypeAndModule const& resolved = resolve_type_and_module(tree, module.module_reference, defined_type);
-            if (is_enumerated(resolved.type.type) && resolved.module.module_reference != module.module_reference)
+            if (introduce_type && is_enumerated(resolved.type.type) &&
+                resolved.module.module_reference != module.module_reference)
             {
-                block.add_line("using " + defined_type.type_reference + "Values = ::fast_ber::" +
-                               resolved.module.module_reference + "::" + defined_type.type_reference + "Values;");
+                block.add_line("using " + name + "Values = ::fast_ber::" + resolved.module.module_reference +
+                               "::" + resolved.type.name + "Values;");
             }
         }
         const bool is_tagged_reference =
diff --git a/src/compiler/ValueType.cpp b/src/compiler/ValueType.cpp
index bf4588d..986837c 100644
--- a/src/compiler/ValueType.cpp
+++ b/src/compiler/ValueType.cpp
@@ -200,8 +200,10 @@ std::string value_type(const UTCTimeType&, const Module&, const Asn1Tree&, const
 std::string value_type(const DefinedType& defined_type, const Module& module, const Asn1Tree& tree, const std::string&,
                        const std::string& identifier_override)
 {
-    const NamedType& referenced = resolve_type(tree, module.module_reference, defined_type);
-    return value_type(referenced.type, module, tree, referenced.name, identifier_override);
+    NamedTypeAndModule const& referenced = resolve_type_and_module(tree, module.module_reference, defined_type);
+    return value_type(referenced.type.type, referenced.module, tree,
+                      "::fast_ber::" + referenced.module.module_reference + "::" + referenced.type.name,
+                      identifier_override);
 }
 
 struct ValueTypeHelper
-- 
2.43.0


From a38180e963d90e3ea83968920a54530d69fcf960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 25/53] fix: ambiguous SEQUENCE components were missed before
 mandatory ones and in CHOICEs

---
 src/compiler/TypeAsString.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 2d6c015..2d26988 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -8,6 +8,7 @@
 
 #include "absl/container/flat_hash_set.h"
 
+#include <algorithm>
 #include <iostream>
 
 template <typename Type>
@@ -252,24 +253,27 @@ void check_valid(const SequenceType& sequence, const Module& module, const Asn1T
 
     if (!is_automatically_tagged(sequence, module))
     {
+        // An absent component is told apart from the component which follows it by their identifiers
         std::vector<Identifier>     previous_optional_ids;
         absl::optional<std::string> previous_optional_type;
         for (const ComponentType& component : sequence.components)
         {
-            if (component.is_optional || component.default_value)
-            {
-                auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
+            auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
 
-                for (const Identifier& previous_optional_id : previous_optional_ids)
+            for (const Identifier& previous_optional_id : previous_optional_ids)
+            {
+                if (previous_optional_type &&
+                    std::find(outer_ids.begin(), outer_ids.end(), previous_optional_id) != outer_ids.end())
                 {
-                    if (previous_optional_type && previous_optional_id == outer_ids.front())
-                    {
-                        throw std::runtime_error("SEQUENCE " + type_name +
-                                                 " is ambiguous, two optional values in a row with same ID [" +
-                                                 component.named_type.name + "] [" + *previous_optional_type + "] [" +
-                                                 outer_ids.front().name() + "]");
-                    }
+                    throw std::runtime_error("SEQUENCE " + type_name +
+                                             " is ambiguous, optional value is followed by value with same ID [" +
+                                             component.named_type.name + "] [" + *previous_optional_type + "] [" +
+                                             previous_optional_id.name() + "]");
                 }
+            }
+
+            if (component.is_optional || component.default_value)
+            {
                 previous_optional_ids  = std::move(outer_ids);
                 previous_optional_type = component.named_type.name;
             }
-- 
2.43.0


From 3f0f7b46be528594b45ee3ea1a7127412d088411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 26/53] fix: duplicated module names were merged silently,
 imports of unknown modules dereferenced the end of a map

---
 src/compiler/ReorderAssignments.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index a72771d..6d81a2e 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -561,14 +561,15 @@ void resolve_module_dependencies(const std::unordered_map<std::string, Module>&
                                  std::unordered_set<std::string>& assigned_names,
                                  std::unordered_set<std::string>& visited_names, std::vector<Module>& ordered_modules)
 {
-    const auto&   module_iter = module_map.find(name);
-    const Module& module      = module_iter->second;
+    const auto& module_iter = module_map.find(name);
 
     if (module_iter == module_map.end())
     {
         throw std::runtime_error("Reference to undefined module: " + name);
     }
 
+    const Module& module = module_iter->second;
+
     if (assigned_names.count(name) == 1)
     {
         // Already assigned
@@ -603,6 +604,10 @@ std::vector<Module> reorder_modules(const std::vector<Module>& modules)
     std::unordered_map<std::string, Module> module_map;
     for (const Module& module : modules)
     {
+        if (module_map.count(module.module_reference) > 0)
+        {
+            throw std::runtime_error("Error: Duplicated module \"" + module.module_reference + '\"');
+        }
         module_map[module.module_reference] = module;
     }
 
-- 
2.43.0


From 3a5780639394b22403c199120436b0869d3f7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 27/53] fix: a CHOICE which is an untagged alternative of
 itself exhausted the stack of the compiler

---
 src/compiler/ReorderAssignments.cpp | 43 +++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 6d81a2e..0915d1a 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -1,5 +1,6 @@
 #include "fast_ber/compiler/ReorderAssignments.hpp"
 #include "fast_ber/compiler/Dependencies.hpp"
+#include "fast_ber/compiler/Identifier.hpp"
 #include "fast_ber/compiler/Logging.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
 #include "fast_ber/compiler/TypeAsString.hpp"
@@ -320,6 +321,39 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
     assigned_names.insert(name);
 }
 
+// A choice is identified by the tags of its alternatives, it cannot be an untagged alternative of itself
+static void check_choice_recursion(const std::unordered_map<std::string, Assignment>& assignment_infos,
+                                   const Type& type, const Module& module, std::unordered_set<std::string>& enclosing)
+{
+    if (is_choice(type))
+    {
+        const ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+        if (!is_automatically_tagged(choice, module))
+        {
+            for (const NamedType& named_type : choice.choices)
+            {
+                check_choice_recursion(assignment_infos, named_type.type, module, enclosing);
+            }
+        }
+    }
+    else if (is_defined(type))
+    {
+        const DefinedType& defined = absl::get<DefinedType>(type);
+        const auto         iter    = assignment_infos.find(defined.type_reference);
+        if ((defined.module_reference && *defined.module_reference != module.module_reference) ||
+            iter == assignment_infos.end() || !is_type(iter->second))
+        {
+            return;
+        }
+        if (!enclosing.insert(defined.type_reference).second)
+        {
+            throw std::runtime_error("Choice " + defined.type_reference + " is an untagged alternative of itself");
+        }
+        check_choice_recursion(assignment_infos, ::type(iter->second), module, enclosing);
+        enclosing.erase(defined.type_reference);
+    }
+}
+
 // Reorder assignments, defining
 // Should be able to detect missing assignments and circular dependencies
 std::vector<Assignment> reorder_assignments(std::vector<Assignment>& assignments, const Asn1Tree& tree,
@@ -345,6 +379,15 @@ std::vector<Assignment> reorder_assignments(std::vector<Assignment>& assignments
                              ordered_assignments);
     }
 
+    for (const Assignment& assignment : ordered_assignments)
+    {
+        if (is_type(assignment))
+        {
+            std::unordered_set<std::string> enclosing = {assignment.name};
+            check_choice_recursion(assignment_map, type(assignment), module, enclosing);
+        }
+    }
+
     if (assignments.size() != ordered_assignments.size())
     {
         throw std::runtime_error("Failed to re-order assignments, Unordered assigments:\n" + to_string(assignments) +
-- 
2.43.0


From e5023c78e26ba60d438f56ebf830a816e321ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 28/53] fix: defaults naming enumeration values were taken for
 undefined values, SET defaults and imported defaults were not ordered

---
 src/compiler/Dependencies.cpp                 | 139 +++++++++++++++---
 src/compiler/ReorderAssignments.cpp           |  89 +++--------
 .../fast_ber/compiler/Dependencies.hpp        |   5 +-
 3 files changed, 145 insertions(+), 88 deletions(-)

diff --git a/src/compiler/Dependencies.cpp b/src/compiler/Dependencies.cpp
index 0f80a69..99f692f 100644
--- a/src/compiler/Dependencies.cpp
+++ b/src/compiler/Dependencies.cpp
@@ -1,4 +1,7 @@
 #include "fast_ber/compiler/Dependencies.hpp"
+#include "fast_ber/compiler/ResolveType.hpp"
+
+#include <algorithm>
 
 std::vector<Dependency> depends_on(const BitStringType&) { return {}; }
 std::vector<Dependency> depends_on(const BooleanType&) { return {}; }
@@ -39,14 +42,6 @@ std::vector<Dependency> depends_on(const SequenceType& sequence)
     {
         const auto& additional = depends_on(component.named_type.type);
         depends.insert(depends.end(), additional.begin(), additional.end());
-
-        if (component.default_value &&
-            absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-            !is_enumerated(component.named_type.type))
-        {
-            const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-            depends.push_back(Dependency{defined.reference, absl::nullopt});
-        }
     }
     return depends;
 }
@@ -105,29 +100,131 @@ struct DependsOnHelper
 static DependsOnHelper  depends_on_helper;
 std::vector<Dependency> depends_on(const BuiltinType& type) { return absl::visit(depends_on_helper, type); }
 std::vector<Dependency> depends_on(const Type& type) { return absl::visit(depends_on_helper, type); }
-std::vector<Dependency> depends_on(const Value& value)
+
+// Values of an enumeration are named within its type, all other named values are assignments
+static bool is_enumerated_reference(const Type& original_type, const Module& module, const Asn1Tree& tree)
 {
-    if (absl::holds_alternative<DefinedValue>(value.value_selection))
+    Type          type        = original_type;
+    const Module* type_module = &module;
+    for (size_t remaining = tree.modules.size() + module.assignments.size() + 1; true;)
     {
-        return {{absl::get<DefinedValue>(value.value_selection).reference, {}}};
-    };
-    return {};
+        while (is_prefixed(type))
+        {
+            const Type untagged_type = absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type;
+            type                     = untagged_type;
+        }
+        if (!is_defined(type))
+        {
+            return is_enumerated(type);
+        }
+        const DefinedType defined = absl::get<DefinedType>(type);
+        if (defined.module_reference && *defined.module_reference != type_module->module_reference)
+        {
+            type_module = &find_module(tree, *defined.module_reference);
+            remaining += type_module->assignments.size();
+        }
+        const auto& assignments = type_module->assignments;
+        const auto  iter        = std::find_if(assignments.begin(), assignments.end(), [&](const Assignment& assignment) {
+            return assignment.name == defined.type_reference && is_type(assignment);
+        });
+        // Undefined and circular references are detected when the reference itself is resolved
+        if (iter == assignments.end() || remaining-- == 0)
+        {
+            return false;
+        }
+        type = ::type(*iter);
+    }
 }
 
-std::vector<Dependency> dependencies(const Type& type) { return depends_on(type); }
-std::vector<Dependency> dependencies(const Assignment& assignment)
+static void add_value_dependency(const Type& type, const Value& value, const Module& module, const Asn1Tree& tree,
+                                 std::vector<Dependency>& depends)
+{
+    if (!absl::holds_alternative<DefinedValue>(value.value_selection) || is_enumerated_reference(type, module, tree))
+    {
+        return;
+    }
+    const std::string& reference = absl::get<DefinedValue>(value.value_selection).reference;
+    for (const Import& import : module.imports)
+    {
+        const auto& values = import.imported_values;
+        if (std::find(values.begin(), values.end(), reference) != values.end())
+        {
+            depends.push_back(Dependency{reference, import.module_reference});
+            return;
+        }
+    }
+    depends.push_back(Dependency{reference, absl::nullopt});
+}
+
+// Values which are referred to as defaults of components
+static void add_default_dependencies(const Type& type, const Module& module, const Asn1Tree& tree,
+                                     std::vector<Dependency>& depends)
+{
+    if (is_sequence(type) || is_set(type))
+    {
+        const ComponentTypeList& components =
+            is_sequence(type) ? absl::get<SequenceType>(absl::get<BuiltinType>(type)).components
+                              : absl::get<SetType>(absl::get<BuiltinType>(type)).components;
+        for (const ComponentType& component : components)
+        {
+            add_default_dependencies(component.named_type.type, module, tree, depends);
+            if (component.default_value)
+            {
+                add_value_dependency(component.named_type.type, *component.default_value, module, tree, depends);
+            }
+        }
+    }
+    else if (is_sequence_of(type))
+    {
+        const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
+        add_default_dependencies(sequence.has_name ? sequence.named_type->type : *sequence.type, module, tree, depends);
+    }
+    else if (is_set_of(type))
+    {
+        const SetOfType& set = absl::get<SetOfType>(absl::get<BuiltinType>(type));
+        add_default_dependencies(set.has_name ? set.named_type->type : *set.type, module, tree, depends);
+    }
+    else if (is_choice(type))
+    {
+        for (const NamedType& choice : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
+        {
+            add_default_dependencies(choice.type, module, tree, depends);
+        }
+    }
+    else if (is_prefixed(type))
+    {
+        add_default_dependencies(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type, module, tree,
+                                 depends);
+    }
+}
+
+std::vector<Dependency> dependencies(const Type& type, const Module& module, const Asn1Tree& tree)
+{
+    std::vector<Dependency> depends = depends_on(type);
+    add_default_dependencies(type, module, tree, depends);
+    return depends;
+}
+std::vector<Dependency> dependencies(const ComponentType& component, const Module& module, const Asn1Tree& tree)
+{
+    std::vector<Dependency> depends = dependencies(component.named_type.type, module, tree);
+    if (component.default_value)
+    {
+        add_value_dependency(component.named_type.type, *component.default_value, module, tree, depends);
+    }
+    return depends;
+}
+std::vector<Dependency> dependencies(const Assignment& assignment, const Module& module, const Asn1Tree& tree)
 {
     if (absl::holds_alternative<TypeAssignment>(assignment.specific))
     {
-        return depends_on(absl::get<TypeAssignment>(assignment.specific).type);
+        return dependencies(absl::get<TypeAssignment>(assignment.specific).type, module, tree);
     }
     else if (absl::holds_alternative<ValueAssignment>(assignment.specific))
     {
-        auto type_depends  = depends_on(absl::get<ValueAssignment>(assignment.specific).type);
-        auto value_depends = depends_on(absl::get<ValueAssignment>(assignment.specific).value);
-
-        type_depends.insert(type_depends.end(), value_depends.begin(), value_depends.end());
-        return type_depends;
+        const ValueAssignment&  value_assign = absl::get<ValueAssignment>(assignment.specific);
+        std::vector<Dependency> depends      = dependencies(value_assign.type, module, tree);
+        add_value_dependency(value_assign.type, value_assign.value, module, tree, depends);
+        return depends;
     }
     return {};
 }
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 0915d1a..14b885e 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -160,6 +160,10 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         absl::flat_hash_set<Dependency> complete_depends;
         for (const Dependency& dependency : depends)
         {
+            if (dependency.module_reference && dependency.module_reference != module.module_reference)
+            {
+                continue;
+            }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
             get_dependencies_recursive(dependency.name, module.module_reference, assignment_infos, complete_depends);
         }
@@ -168,6 +172,19 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                            [&](const Dependency& depend) { return depend.name == name; });
     };
 
+    auto resolve_all = [&](const std::vector<Dependency>& depends) {
+        for (const Dependency& dependency : depends)
+        {
+            if (dependency.module_reference && dependency.module_reference != module.module_reference)
+            {
+                continue;
+            }
+
+            resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
+                                 ordered_assignment_infos);
+        }
+    };
+
     if (is_type(assignment) &&
         (is_choice(type(assignment)) || is_set_of(type(assignment)) || is_sequence_of(type(assignment))))
     {
@@ -213,16 +230,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         }
         else
         {
-            for (const Dependency& dependency : assignment.depends_on)
-            {
-                if (dependency.module_reference && dependency.module_reference != module.module_reference)
-                {
-                    continue;
-                }
-
-                resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                     ordered_assignment_infos);
-            }
+            resolve_all(assignment.depends_on);
         }
     }
     else if (is_type(assignment) && is_sequence(type(assignment)))
@@ -230,24 +238,8 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type(assignment)));
         for (ComponentType& component : sequence.components)
         {
-            if (component.default_value)
-            {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
-
-                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(resolve_type(tree, module.module_reference, component.named_type).type))
-                {
-                    const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                         visited_names, ordered_assignment_infos);
-                }
-            }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
+            if (component.is_optional && is_circular(dependencies(component, module, tree)))
             {
                 std::cout << "Optional member[" << component.named_type.name << "] of [" << name
                           << "] has circular dependencies, setting dynamic storage policy" << std::endl;
@@ -256,11 +248,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             }
             else
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
+                resolve_all(dependencies(component, module, tree));
             }
         }
     }
@@ -269,24 +257,8 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         SetType& sequence = absl::get<SetType>(absl::get<BuiltinType>(type(assignment)));
         for (ComponentType& component : sequence.components)
         {
-            if (component.default_value)
-            {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
-
-                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(resolve_type(tree, module.module_reference, component.named_type).type))
-                {
-                    const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                         visited_names, ordered_assignment_infos);
-                }
-            }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
+            if (component.is_optional && is_circular(dependencies(component, module, tree)))
             {
                 std::cout << "Optional member[" << component.named_type.name << "] of [" << name
                           << "] has circular dependencies, setting dynamic storage policy" << std::endl;
@@ -295,26 +267,13 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             }
             else
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
+                resolve_all(dependencies(component, module, tree));
             }
         }
     }
     else
     {
-        for (const Dependency& dependency : assignment.depends_on)
-        {
-            if (dependency.module_reference && dependency.module_reference != module.module_reference)
-            {
-                continue;
-            }
-
-            resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                 ordered_assignment_infos);
-        }
+        resolve_all(assignment.depends_on);
     }
 
     ordered_assignment_infos.push_back(assignment);
@@ -363,7 +322,7 @@ std::vector<Assignment> reorder_assignments(std::vector<Assignment>& assignments
     assignment_map.reserve(assignments.size());
     for (Assignment& assignment : assignments)
     {
-        assignment.depends_on           = dependencies(assignment);
+        assignment.depends_on           = dependencies(assignment, module, tree);
         assignment_map[assignment.name] = assignment;
     }
 
diff --git a/src/compiler/include/fast_ber/compiler/Dependencies.hpp b/src/compiler/include/fast_ber/compiler/Dependencies.hpp
index 8fda971..7f68510 100644
--- a/src/compiler/include/fast_ber/compiler/Dependencies.hpp
+++ b/src/compiler/include/fast_ber/compiler/Dependencies.hpp
@@ -39,8 +39,9 @@ std::vector<Dependency> depends_on(const DefinedType&);
 std::vector<Dependency> depends_on(const BuiltinType& type);
 std::vector<Dependency> depends_on(const Type& type);
 
-std::vector<Dependency> dependencies(const Type& type);
-std::vector<Dependency> dependencies(const Assignment& assignment);
+std::vector<Dependency> dependencies(const Type& type, const Module& module, const Asn1Tree& tree);
+std::vector<Dependency> dependencies(const ComponentType& component, const Module& module, const Asn1Tree& tree);
+std::vector<Dependency> dependencies(const Assignment& assignment, const Module& module, const Asn1Tree& tree);
 
 void get_dependencies_recursive(const std::string& type_name, const std::string& module_name,
                                 const std::unordered_map<std::string, Assignment>& assignment_map,
-- 
2.43.0


From 993a373e88d8416d8b3c66d48b6ff74fc6d98586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 29/53] fix: members of recursive types were declared before
 their complete types or stored by value

---
 src/compiler/ReorderAssignments.cpp | 101 +++++++++++++++++++++-------
 1 file changed, 75 insertions(+), 26 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 14b885e..742d530 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -130,6 +130,59 @@ void resolve_components_of(Asn1Tree& tree)
     }
 }
 
+// Store members of structures which are defined within type on the heap, returns those which are stored by value
+static void use_dynamic_storage(Type& type, std::vector<Dependency>& stored_by_value)
+{
+    if (is_prefixed(type))
+    {
+        use_dynamic_storage(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type, stored_by_value);
+    }
+    else if (is_choice(type))
+    {
+        ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+        choice.storage     = StorageMode::dynamic;
+
+        // Also mark self referential children as dynamic (Sizeof choice cannot yet be determined)
+        // TODO: should only be dynamic if refer to choice
+        for (NamedType& child : choice.choices)
+        {
+            Type& child_type =
+                is_prefixed(child.type)
+                    ? absl::get<PrefixedType>(absl::get<BuiltinType>(child.type)).tagged_type->type
+                    : child.type;
+
+            if (is_set_of(child_type))
+            {
+                absl::get<SetOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
+            }
+            if (is_sequence_of(child_type))
+            {
+                absl::get<SequenceOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
+            }
+            use_dynamic_storage(child_type, stored_by_value);
+        }
+    }
+    else if (is_sequence(type) || is_set(type))
+    {
+        ComponentTypeList& components = is_sequence(type)
+                                            ? absl::get<SequenceType>(absl::get<BuiltinType>(type)).components
+                                            : absl::get<SetType>(absl::get<BuiltinType>(type)).components;
+        for (ComponentType& component : components)
+        {
+            if (component.is_optional)
+            {
+                component.optional_storage = StorageMode::dynamic;
+                use_dynamic_storage(component.named_type.type, stored_by_value);
+            }
+            else
+            {
+                const std::vector<Dependency>& depends = depends_on(component.named_type.type);
+                stored_by_value.insert(stored_by_value.end(), depends.begin(), depends.end());
+            }
+        }
+    }
+}
+
 void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignment_infos, const std::string& name,
                           const Asn1Tree& tree, const Module& module, std::unordered_set<std::string>& assigned_names,
                           std::unordered_set<std::string>& visited_names,
@@ -185,40 +238,34 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         }
     };
 
+    // The type is part of a cycle and is stored on the heap. It is defined after everything which isn't part of the
+    // cycle and everything which is still stored by value
+    auto resolve_indirect = [&](Type& indirect, const std::vector<Dependency>& depends) {
+        for (const Dependency& dependency : depends)
+        {
+            if (!is_circular({dependency}))
+            {
+                resolve_all({dependency});
+            }
+        }
+
+        std::vector<Dependency> stored_by_value;
+        use_dynamic_storage(indirect, stored_by_value);
+        resolve_all(stored_by_value);
+    };
+
     if (is_type(assignment) &&
         (is_choice(type(assignment)) || is_set_of(type(assignment)) || is_sequence_of(type(assignment))))
     {
         // If circular dependancy, use dynamic storage. Else, resolve and use static storage
         if (is_circular({Dependency{name, module.module_reference}}))
         {
-            // As type is now dynamic it doesn't have any dependencies
-            assignment_infos[name].depends_on = {};
-
-            if (is_choice(type(assignment)))
-            {
-                ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type(assignment)));
-                choice.storage     = StorageMode::dynamic;
+            resolve_indirect(type(assignment), assignment.depends_on);
 
-                // Also mark self referential children as dynamic (Sizeof choice cannot yet be determined)
-                // TODO: should only be dynamic if refer to choice
-                for (NamedType& child : choice.choices)
-                {
-                    Type& child_type =
-                        is_prefixed(child.type)
-                            ? absl::get<PrefixedType>(absl::get<BuiltinType>(child.type)).tagged_type->type
-                            : child.type;
+            // As type is now dynamic it doesn't have any dependencies, other than those outside of the cycle
+            assignment_infos[name].depends_on = {};
 
-                    if (is_set_of(child_type))
-                    {
-                        absl::get<SetOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
-                    }
-                    if (is_sequence_of(child_type))
-                    {
-                        absl::get<SequenceOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
-                    }
-                }
-            }
-            else if (is_set_of(type(assignment)))
+            if (is_set_of(type(assignment)))
             {
                 absl::get<SetOfType>(absl::get<BuiltinType>(type(assignment))).storage = StorageMode::dynamic;
             }
@@ -245,6 +292,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                           << "] has circular dependencies, setting dynamic storage policy" << std::endl;
 
                 component.optional_storage = StorageMode::dynamic;
+                resolve_indirect(component.named_type.type, dependencies(component, module, tree));
             }
             else
             {
@@ -264,6 +312,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                           << "] has circular dependencies, setting dynamic storage policy" << std::endl;
 
                 component.optional_storage = StorageMode::dynamic;
+                resolve_indirect(component.named_type.type, dependencies(component, module, tree));
             }
             else
             {
-- 
2.43.0


From 9c8dc6e900c327668c81deb47e0e25710e19522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 30/53] fix: the keywords ENCODING-CONTROL, OID-IRI and
 PLUS-INFINITY were only recognised with an underscore

---
 src/compiler/asn_compiler.yacc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index b4d5d7f..9cec5a2 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1853,7 +1853,7 @@ re2c:define:YYCURSOR = "context_.cursor";
 "DURATION"              { context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
 "EMBEDDED"              { context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
 "ENCODED"               { context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-"ENCODING_CONTROL"      { context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
+"ENCODING-CONTROL"      { context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
 "END"                   { context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
 "ENUMERATED"            { context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
 "EXCEPT"                { context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
@@ -1887,11 +1887,11 @@ re2c:define:YYCURSOR = "context_.cursor";
 "ObjectDescriptor"      { context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
 "OCTET"                 { context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
 "OF"                    { context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-"OID_IRI"               { context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
+"OID-IRI"               { context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
 "OPTIONAL"              { context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
 "PATTERN"               { context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
 "PDV"                   { context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-"PLUS_INFINITY"         { context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
+"PLUS-INFINITY"         { context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
 "PRESENT"               { context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
 "PrintableString"       { context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
 "PRIVATE"               { context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-- 
2.43.0


From c60586824e2b6bda93370a09a660771a52f8f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 31/53] fix: comments and strings without an end were read past
 the end of the input, strings containing apostrophes or backslashes were
 misread

---
 src/compiler/asn_compiler.yacc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 9cec5a2..0328031 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1824,7 +1824,7 @@ namespace yy {
         // Lexer
 %{
 re2c:yyfill:enable   = 0;
-re2c:define:YYCTYPE  = "char";
+re2c:define:YYCTYPE  = "unsigned char";
 re2c:define:YYCURSOR = "context_.cursor";
 
 // Keywords
@@ -1922,18 +1922,18 @@ re2c:define:YYCURSOR = "context_.cursor";
 "WITH"                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
 
 // Comments
-"--" ([\-]?[^\r\n\-])* "--"
+"--" ([\-]?[^\r\n\-\000])* "--"
                         { context_.location.columns(context_.cursor - start); return yylex(context_); }
-"--" ([\-]?[^\r\n\-])*[\-]?
+"--" ([\-]?[^\r\n\-\000])*[\-]?
                         { context_.location.columns(context_.cursor - start); return yylex(context_); }
-"/*" ([^\*]|([\*]+[^\*\/]))*[\*]+ "/"
+"/*" ([^\*\000]|([\*]+[^\*\/\000]))*[\*]+ "/"
                         { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
 
 // Identifiers
 [0-9]+'\.'[0-9]+        { context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
 [0-9]+                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
 "-"[0-9]+               { context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-['\"']('\\'.|"\"\""|[^'\"'])*['\"']
+"\""("\"\""|[^\x22\000])*"\""
                         { context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
 ['\'']('0'|'1')*['\'']"B"
                         { context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-- 
2.43.0


From ebcbb8a19db08961647cdc6066f59343ccb360eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 32/53] fix: long runs of white space and comments exhausted
 the stack of the compiler

---
 src/compiler/asn_compiler.yacc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 0328031..0e3b2b6 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1818,6 +1818,9 @@ namespace yy {
 
     asn1_parser::symbol_type yylex(Context& context_)
     {
+        // White space, comments and unknown symbols are skipped in a loop, however many there are
+        for (;;)
+        {
         const char* start = context_.cursor;
         const char* YYMARKER = nullptr;
         context_.location.step();
@@ -1923,11 +1926,11 @@ re2c:define:YYCURSOR = "context_.cursor";
 
 // Comments
 "--" ([\-]?[^\r\n\-\000])* "--"
-                        { context_.location.columns(context_.cursor - start); return yylex(context_); }
+                        { context_.location.columns(context_.cursor - start); continue; }
 "--" ([\-]?[^\r\n\-\000])*[\-]?
-                        { context_.location.columns(context_.cursor - start); return yylex(context_); }
+                        { context_.location.columns(context_.cursor - start); continue; }
 "/*" ([^\*\000]|([\*]+[^\*\/\000]))*[\*]+ "/"
-                        { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
+                        { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
 
 // Identifiers
 [0-9]+'\.'[0-9]+        { context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
@@ -1948,8 +1951,8 @@ re2c:define:YYCURSOR = "context_.cursor";
 "\000"                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
 
 // White space
-"\r\n" | "\n"           { context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-[\t\v\b\f ]             { context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
+"\r\n" | "\n"           { context_.location.columns(context_.cursor - start); context_.location.lines();   continue; }
+[\t\v\b\f ]             { context_.location.columns(context_.cursor - start); context_.location.columns(); continue; }
 
 // Symbols
 "::="                   { context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
@@ -1971,7 +1974,8 @@ re2c:define:YYCURSOR = "context_.cursor";
 "<"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
 "^"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
 "@"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-.                       { std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
+.                       { std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
 %}
+        }
     }
 }
-- 
2.43.0


From 26ff63bb4402fdab4c338eaf94d2918d87015cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 33/53] fix: xor-eq was not among the reserved words

---
 src/compiler/CompilerTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 703f2f8..73c360d 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -118,7 +118,7 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "wchar_t",
     "while",
     "xor",
-    "xor_eq"
+    "xor_eq",
     /* fast_ber*/
     "BMPString",
     "BitString",
-- 
2.43.0


From 30d8bfc702004c37450d58419ffe9d27c9c330dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 34/53] fix: the checked-in parser lacked the repairs of the
 grammar it is generated from

---
 src/compiler/autogen_copy/asn_compiler.hpp | 26439 ++++++++++---------
 1 file changed, 13476 insertions(+), 12963 deletions(-)

diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 1a941a2..979c4db 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -1,10 +1,10 @@
-/* Generated by re2c 2.0.3 */
-#line 1 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-// A Bison parser, made by GNU Bison 3.3.2.
+/* Generated by re2c 3.1 */
+#line 1 "asn_compiler.re"
+// A Bison parser, made by GNU Bison 3.8.2.
 
 // Skeleton implementation for Bison LALR(1) parsers in C++
 
-// Copyright (C) 2002-2015, 2018-2019 Free Software Foundation, Inc.
+// Copyright (C) 2002-2015, 2018-2021 Free Software Foundation, Inc.
 
 // This program is free software: you can redistribute it and/or modify
 // it under the terms of the GNU General Public License as published by
@@ -17,7 +17,7 @@
 // GNU General Public License for more details.
 
 // You should have received a copy of the GNU General Public License
-// along with this program.  If not, see <http://www.gnu.org/licenses/>.
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 // As a special exception, you may create a larger work that contains
 // part or all of the Bison parser skeleton and distribute that work
@@ -32,20 +32,19 @@
 // This special exception was added by the Free Software Foundation in
 // version 2.2 of Bison.
 
-// Undocumented macros, especially those whose name start with YY_,
-// are private implementation details.  Do not rely on them.
+// DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+// especially those whose name start with YY_ or yy_.  They are
+// private implementation details that can be changed or removed.
 
 
 
 
 
-// //                    "%code requires" blocks.
-#line 10 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:431
+// "%code requires" blocks.
 
     #include "fast_ber/compiler/CompilerTypes.hpp"
     #include "fast_ber/compiler/Logging.hpp"
 
-#line 47 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:431
 
 # include <cassert>
 # include <cstdlib> // std::abort
@@ -92,44 +91,48 @@
 #endif
 
 #include <typeinfo>
-#ifndef YYASSERT
+#ifndef YY_ASSERT
 # include <cassert>
-# define YYASSERT assert
+# define YY_ASSERT assert
 #endif
 
 
-#ifndef YY_ATTRIBUTE
-# if (defined __GNUC__                                               \
-      && (2 < __GNUC__ || (__GNUC__ == 2 && 96 <= __GNUC_MINOR__)))  \
-     || defined __SUNPRO_C && 0x5110 <= __SUNPRO_C
-#  define YY_ATTRIBUTE(Spec) __attribute__(Spec)
+#ifndef YY_ATTRIBUTE_PURE
+# if defined __GNUC__ && 2 < __GNUC__ + (96 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_PURE __attribute__ ((__pure__))
 # else
-#  define YY_ATTRIBUTE(Spec) /* empty */
+#  define YY_ATTRIBUTE_PURE
 # endif
 #endif
 
-#ifndef YY_ATTRIBUTE_PURE
-# define YY_ATTRIBUTE_PURE   YY_ATTRIBUTE ((__pure__))
-#endif
-
 #ifndef YY_ATTRIBUTE_UNUSED
-# define YY_ATTRIBUTE_UNUSED YY_ATTRIBUTE ((__unused__))
+# if defined __GNUC__ && 2 < __GNUC__ + (7 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_UNUSED __attribute__ ((__unused__))
+# else
+#  define YY_ATTRIBUTE_UNUSED
+# endif
 #endif
 
 /* Suppress unused-variable warnings by "using" E.  */
 #if ! defined lint || defined __GNUC__
-# define YYUSE(E) ((void) (E))
+# define YY_USE(E) ((void) (E))
 #else
-# define YYUSE(E) /* empty */
+# define YY_USE(E) /* empty */
 #endif
 
-#if defined __GNUC__ && ! defined __ICC && 407 <= __GNUC__ * 100 + __GNUC_MINOR__
 /* Suppress an incorrect diagnostic about yylval being uninitialized.  */
-# define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN \
-    _Pragma ("GCC diagnostic push") \
-    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")\
+#if defined __GNUC__ && ! defined __ICC && 406 <= __GNUC__ * 100 + __GNUC_MINOR__
+# if __GNUC__ * 100 + __GNUC_MINOR__ < 407
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")
+# else
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")              \
     _Pragma ("GCC diagnostic ignored \"-Wmaybe-uninitialized\"")
-# define YY_IGNORE_MAYBE_UNINITIALIZED_END \
+# endif
+# define YY_IGNORE_MAYBE_UNINITIALIZED_END      \
     _Pragma ("GCC diagnostic pop")
 #else
 # define YY_INITIAL_VALUE(Value) Value
@@ -142,6 +145,27 @@
 # define YY_INITIAL_VALUE(Value) /* Nothing. */
 #endif
 
+#if defined __cplusplus && defined __GNUC__ && ! defined __ICC && 6 <= __GNUC__
+# define YY_IGNORE_USELESS_CAST_BEGIN                          \
+    _Pragma ("GCC diagnostic push")                            \
+    _Pragma ("GCC diagnostic ignored \"-Wuseless-cast\"")
+# define YY_IGNORE_USELESS_CAST_END            \
+    _Pragma ("GCC diagnostic pop")
+#endif
+#ifndef YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_END
+#endif
+
+# ifndef YY_CAST
+#  ifdef __cplusplus
+#   define YY_CAST(Type, Val) static_cast<Type> (Val)
+#   define YY_REINTERPRET_CAST(Type, Val) reinterpret_cast<Type> (Val)
+#  else
+#   define YY_CAST(Type, Val) ((Type) (Val))
+#   define YY_REINTERPRET_CAST(Type, Val) ((Type) (Val))
+#  endif
+# endif
 # ifndef YY_NULLPTR
 #  if defined __cplusplus
 #   if 201103L <= __cplusplus
@@ -159,18 +183,22 @@
 # define YYDEBUG 1
 #endif
 
-
 namespace yy {
-#line 163 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:431
+
 
   /// A point in a source file.
   class position
   {
   public:
+    /// Type for file name.
+    typedef const std::string filename_type;
+    /// Type for line and column numbers.
+    typedef int counter_type;
+
     /// Construct a position.
-    explicit position (std::string* f = YY_NULLPTR,
-                       unsigned l = 1u,
-                       unsigned c = 1u)
+    explicit position (filename_type* f = YY_NULLPTR,
+                       counter_type l = 1,
+                       counter_type c = 1)
       : filename (f)
       , line (l)
       , column (c)
@@ -178,9 +206,9 @@ namespace yy {
 
 
     /// Initialization.
-    void initialize (std::string* fn = YY_NULLPTR,
-                     unsigned l = 1u,
-                     unsigned c = 1u)
+    void initialize (filename_type* fn = YY_NULLPTR,
+                     counter_type l = 1,
+                     counter_type c = 1)
     {
       filename = fn;
       line = l;
@@ -190,41 +218,40 @@ namespace yy {
     /** \name Line and Column related manipulators
      ** \{ */
     /// (line related) Advance to the COUNT next lines.
-    void lines (int count = 1)
+    void lines (counter_type count = 1)
     {
       if (count)
         {
-          column = 1u;
+          column = 1;
           line = add_ (line, count, 1);
         }
     }
 
     /// (column related) Advance to the COUNT next columns.
-    void columns (int count = 1)
+    void columns (counter_type count = 1)
     {
       column = add_ (column, count, 1);
     }
     /** \} */
 
     /// File name to which this position refers.
-    std::string* filename;
+    filename_type* filename;
     /// Current line number.
-    unsigned line;
+    counter_type line;
     /// Current column number.
-    unsigned column;
+    counter_type column;
 
   private:
     /// Compute max (min, lhs+rhs).
-    static unsigned add_ (unsigned lhs, int rhs, int min)
+    static counter_type add_ (counter_type lhs, counter_type rhs, counter_type min)
     {
-      return static_cast<unsigned> (std::max (min,
-                                              static_cast<int> (lhs) + rhs));
+      return lhs + rhs < min ? min : lhs + rhs;
     }
   };
 
   /// Add \a width columns, in place.
   inline position&
-  operator+= (position& res, int width)
+  operator+= (position& res, position::counter_type width)
   {
     res.columns (width);
     return res;
@@ -232,43 +259,25 @@ namespace yy {
 
   /// Add \a width columns.
   inline position
-  operator+ (position res, int width)
+  operator+ (position res, position::counter_type width)
   {
     return res += width;
   }
 
   /// Subtract \a width columns, in place.
   inline position&
-  operator-= (position& res, int width)
+  operator-= (position& res, position::counter_type width)
   {
     return res += -width;
   }
 
   /// Subtract \a width columns.
   inline position
-  operator- (position res, int width)
+  operator- (position res, position::counter_type width)
   {
     return res -= width;
   }
 
-  /// Compare two position objects.
-  inline bool
-  operator== (const position& pos1, const position& pos2)
-  {
-    return (pos1.line == pos2.line
-            && pos1.column == pos2.column
-            && (pos1.filename == pos2.filename
-                || (pos1.filename && pos2.filename
-                    && *pos1.filename == *pos2.filename)));
-  }
-
-  /// Compare two position objects.
-  inline bool
-  operator!= (const position& pos1, const position& pos2)
-  {
-    return !(pos1 == pos2);
-  }
-
   /** \brief Intercept output stream redirection.
    ** \param ostr the destination output stream
    ** \param pos a reference to the position to redirect
@@ -286,6 +295,10 @@ namespace yy {
   class location
   {
   public:
+    /// Type for file name.
+    typedef position::filename_type filename_type;
+    /// Type for line and column numbers.
+    typedef position::counter_type counter_type;
 
     /// Construct a location from \a b to \a e.
     location (const position& b, const position& e)
@@ -300,18 +313,18 @@ namespace yy {
     {}
 
     /// Construct a 0-width location in \a f, \a l, \a c.
-    explicit location (std::string* f,
-                       unsigned l = 1u,
-                       unsigned c = 1u)
+    explicit location (filename_type* f,
+                       counter_type l = 1,
+                       counter_type c = 1)
       : begin (f, l, c)
       , end (f, l, c)
     {}
 
 
     /// Initialization.
-    void initialize (std::string* f = YY_NULLPTR,
-                     unsigned l = 1u,
-                     unsigned c = 1u)
+    void initialize (filename_type* f = YY_NULLPTR,
+                     counter_type l = 1,
+                     counter_type c = 1)
     {
       begin.initialize (f, l, c);
       end = begin;
@@ -327,13 +340,13 @@ namespace yy {
     }
 
     /// Extend the current location to the COUNT next columns.
-    void columns (int count = 1)
+    void columns (counter_type count = 1)
     {
       end += count;
     }
 
     /// Extend the current location to the COUNT next lines.
-    void lines (int count = 1)
+    void lines (counter_type count = 1)
     {
       end.lines (count);
     }
@@ -348,57 +361,49 @@ namespace yy {
   };
 
   /// Join two locations, in place.
-  inline location& operator+= (location& res, const location& end)
+  inline location&
+  operator+= (location& res, const location& end)
   {
     res.end = end.end;
     return res;
   }
 
   /// Join two locations.
-  inline location operator+ (location res, const location& end)
+  inline location
+  operator+ (location res, const location& end)
   {
     return res += end;
   }
 
   /// Add \a width columns to the end position, in place.
-  inline location& operator+= (location& res, int width)
+  inline location&
+  operator+= (location& res, location::counter_type width)
   {
     res.columns (width);
     return res;
   }
 
   /// Add \a width columns to the end position.
-  inline location operator+ (location res, int width)
+  inline location
+  operator+ (location res, location::counter_type width)
   {
     return res += width;
   }
 
   /// Subtract \a width columns to the end position, in place.
-  inline location& operator-= (location& res, int width)
+  inline location&
+  operator-= (location& res, location::counter_type width)
   {
     return res += -width;
   }
 
   /// Subtract \a width columns to the end position.
-  inline location operator- (location res, int width)
+  inline location
+  operator- (location res, location::counter_type width)
   {
     return res -= width;
   }
 
-  /// Compare two location objects.
-  inline bool
-  operator== (const location& loc1, const location& loc2)
-  {
-    return loc1.begin == loc2.begin && loc1.end == loc2.end;
-  }
-
-  /// Compare two location objects.
-  inline bool
-  operator!= (const location& loc1, const location& loc2)
-  {
-    return !(loc1 == loc2);
-  }
-
   /** \brief Intercept output stream redirection.
    ** \param ostr the destination output stream
    ** \param loc a reference to the location to redirect
@@ -409,7 +414,8 @@ namespace yy {
   std::basic_ostream<YYChar>&
   operator<< (std::basic_ostream<YYChar>& ostr, const location& loc)
   {
-    unsigned end_col = 0 < loc.end.column ? loc.end.column - 1 : 0;
+    location::counter_type end_col
+      = 0 < loc.end.column ? loc.end.column - 1 : 0;
     ostr << loc.begin;
     if (loc.end.filename
         && (!loc.begin.filename
@@ -427,37 +433,49 @@ namespace yy {
   class asn1_parser
   {
   public:
-#ifndef YYSTYPE
+#ifdef YYSTYPE
+# ifdef __GNUC__
+#  pragma GCC message "bison: do not #define YYSTYPE in C++, use %define api.value.type"
+# endif
+    typedef YYSTYPE value_type;
+#else
   /// A buffer to store and retrieve objects.
   ///
   /// Sort of a variant, but does not keep track of the nature
   /// of the stored data, since that knowledge is available
   /// via the current parser state.
-  class semantic_type
+  class value_type
   {
   public:
     /// Type of *this.
-    typedef semantic_type self_type;
+    typedef value_type self_type;
 
     /// Empty construction.
-    semantic_type () YY_NOEXCEPT
-      : yybuffer_ ()
+    value_type () YY_NOEXCEPT
+      : yyraw_ ()
       , yytypeid_ (YY_NULLPTR)
     {}
 
     /// Construct and fill.
     template <typename T>
-    semantic_type (YY_RVREF (T) t)
+    value_type (YY_RVREF (T) t)
       : yytypeid_ (&typeid (T))
     {
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (sizeof (T) <= size);
       new (yyas_<T> ()) T (YY_MOVE (t));
     }
 
+#if 201103L <= YY_CPLUSPLUS
+    /// Non copyable.
+    value_type (const self_type&) = delete;
+    /// Non copyable.
+    self_type& operator= (const self_type&) = delete;
+#endif
+
     /// Destruction, allowed only if empty.
-    ~semantic_type () YY_NOEXCEPT
+    ~value_type () YY_NOEXCEPT
     {
-      YYASSERT (!yytypeid_);
+      YY_ASSERT (!yytypeid_);
     }
 
 # if 201103L <= YY_CPLUSPLUS
@@ -466,8 +484,8 @@ namespace yy {
     T&
     emplace (U&&... u)
     {
-      YYASSERT (!yytypeid_);
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (!yytypeid_);
+      YY_ASSERT (sizeof (T) <= size);
       yytypeid_ = & typeid (T);
       return *new (yyas_<T> ()) T (std::forward <U>(u)...);
     }
@@ -477,8 +495,8 @@ namespace yy {
     T&
     emplace ()
     {
-      YYASSERT (!yytypeid_);
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (!yytypeid_);
+      YY_ASSERT (sizeof (T) <= size);
       yytypeid_ = & typeid (T);
       return *new (yyas_<T> ()) T ();
     }
@@ -488,8 +506,8 @@ namespace yy {
     T&
     emplace (const T& t)
     {
-      YYASSERT (!yytypeid_);
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (!yytypeid_);
+      YY_ASSERT (sizeof (T) <= size);
       yytypeid_ = & typeid (T);
       return *new (yyas_<T> ()) T (t);
     }
@@ -518,9 +536,9 @@ namespace yy {
     T&
     as () YY_NOEXCEPT
     {
-      YYASSERT (yytypeid_);
-      YYASSERT (*yytypeid_ == typeid (T));
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (yytypeid_);
+      YY_ASSERT (*yytypeid_ == typeid (T));
+      YY_ASSERT (sizeof (T) <= size);
       return *yyas_<T> ();
     }
 
@@ -529,9 +547,9 @@ namespace yy {
     const T&
     as () const YY_NOEXCEPT
     {
-      YYASSERT (yytypeid_);
-      YYASSERT (*yytypeid_ == typeid (T));
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (yytypeid_);
+      YY_ASSERT (*yytypeid_ == typeid (T));
+      YY_ASSERT (sizeof (T) <= size);
       return *yyas_<T> ();
     }
 
@@ -547,8 +565,8 @@ namespace yy {
     void
     swap (self_type& that) YY_NOEXCEPT
     {
-      YYASSERT (yytypeid_);
-      YYASSERT (*yytypeid_ == *that.yytypeid_);
+      YY_ASSERT (yytypeid_);
+      YY_ASSERT (*yytypeid_ == *that.yytypeid_);
       std::swap (as<T> (), that.as<T> ());
     }
 
@@ -597,16 +615,19 @@ namespace yy {
     }
 
   private:
-    /// Prohibit blind copies.
+#if YY_CPLUSPLUS < 201103L
+    /// Non copyable.
+    value_type (const self_type&);
+    /// Non copyable.
     self_type& operator= (const self_type&);
-    semantic_type (const self_type&);
+#endif
 
     /// Accessor to raw memory as \a T.
     template <typename T>
     T*
     yyas_ () YY_NOEXCEPT
     {
-      void *yyp = yybuffer_.yyraw;
+      void *yyp = yyraw_;
       return static_cast<T*> (yyp);
      }
 
@@ -615,7 +636,7 @@ namespace yy {
     const T*
     yyas_ () const YY_NOEXCEPT
     {
-      const void *yyp = yybuffer_.yyraw;
+      const void *yyp = yyraw_;
       return static_cast<const T*> (yyp);
      }
 
@@ -890,18 +911,19 @@ namespace yy {
     union
     {
       /// Strongest alignment constraints.
-      long double yyalign_me;
+      long double yyalign_me_;
       /// A buffer large enough to store any of the semantic values.
-      char yyraw[size];
-    } yybuffer_;
+      char yyraw_[size];
+    };
 
     /// Whether the content is built: if defined, the name of the stored type.
     const std::type_info *yytypeid_;
   };
 
-#else
-    typedef YYSTYPE semantic_type;
 #endif
+    /// Backward compatibility (Bison 3.8).
+    typedef value_type semantic_type;
+
     /// Symbol locations.
     typedef location location_type;
 
@@ -923,178 +945,571 @@ namespace yy {
       location_type location;
     };
 
-    /// Tokens.
+    /// Token kinds.
     struct token
     {
-      enum yytokentype
-      {
-        END_OF_FILE = 0,
-        comment = 258,
-        number = 259,
-        negativenumber = 260,
-        realnumber = 261,
-        bstring = 262,
-        xmlbstring = 263,
-        hstring = 264,
-        xmlhstring = 265,
-        cstring = 266,
-        xmlcstring = 267,
-        simplestring = 268,
-        xmltstring = 269,
-        psname = 270,
-        encodingreference = 271,
-        integerUnicodeLabel = 272,
-        tstring = 275,
-        objectreference = 277,
-        objectsetreference = 278,
-        typefieldreference = 279,
-        valuefieldreference = 280,
-        valuesetfieldreference = 281,
-        objectfieldreference = 282,
-        objectsetfieldreference = 283,
-        ABSENT = 284,
-        ABSTRACT_SYNTAX = 285,
-        ALL = 286,
-        ANY = 287,
-        APPLICATION = 288,
-        ASN_NULL = 289,
-        AUTOMATIC = 290,
-        BEGIN = 291,
-        BIT = 292,
-        BMPString = 293,
-        BOOLEAN = 294,
-        BY = 295,
-        CHARACTER = 296,
-        CHOICE = 297,
-        CLASS = 298,
-        COMPONENT = 299,
-        COMPONENTS = 300,
-        CONSTRAINED = 301,
-        CONTAINING = 302,
-        DATE = 303,
-        DATE_TIME = 304,
-        DEFAULT = 305,
-        DEFINITIONS = 306,
-        DURATION = 307,
-        EMBEDDED = 308,
-        ENCODED = 309,
-        ENCODING_CONTROL = 310,
-        END = 311,
-        ENUMERATED = 312,
-        EXCEPT = 313,
-        EXPLICIT = 314,
-        EXPORTS = 315,
-        EXTENSIBILITY = 316,
-        EXTERNAL = 317,
-        FALSE = 318,
-        FROM = 319,
-        GeneralizedTime = 320,
-        GeneralString = 321,
-        GraphicString = 322,
-        IA5String = 323,
-        IDENTIFIER = 324,
-        IMPLICIT = 325,
-        IMPLIED = 326,
-        IMPORTS = 327,
-        INCLUDES = 328,
-        INSTANCE = 329,
-        INSTRUCTIONS = 330,
-        INTEGER = 331,
-        INTERSECTION = 332,
-        ISO646String = 333,
-        MAX = 334,
-        MIN = 335,
-        MINUS_INFINITY = 336,
-        NOT_A_NUMBER = 337,
-        NumericString = 338,
-        OBJECT = 339,
-        ObjectDescriptor = 340,
-        OCTET = 341,
-        OF = 342,
-        OID_IRI = 343,
-        OPTIONAL = 344,
-        PATTERN = 345,
-        PDV = 346,
-        PLUS_INFINITY = 347,
-        PRESENT = 348,
-        PrintableString = 349,
-        PRIVATE = 350,
-        REAL = 351,
-        RELATIVE_OID = 352,
-        RELATIVE_OID_IRI = 353,
-        SEQUENCE = 354,
-        SET = 355,
-        SETTINGS = 356,
-        SIZE = 357,
-        STRING = 358,
-        SYNTAX = 359,
-        T61String = 360,
-        TAGS = 361,
-        TeletexString = 362,
-        TIME = 363,
-        TIME_OF_DAY = 364,
-        TRUE = 365,
-        TYPE_IDENTIFIER = 366,
-        UNION = 367,
-        UNIQUE = 368,
-        UNIVERSAL = 369,
-        UniversalString = 370,
-        UTCTime = 371,
-        UTF8String = 372,
-        VideotexString = 373,
-        VisibleString = 374,
-        WITH = 375,
-        DEFINED_AS = 376,
-        ELIPSIS = 377,
-        RANGE = 378,
-        OPEN_BRACE = 379,
-        CLOSE_BRACE = 380,
-        OPEN_PARENTHESIS = 381,
-        CLOSE_PARENTHESIS = 382,
-        OPEN_SQUARE_BRACKET = 383,
-        CLOSE_SQUARE_BRACKET = 384,
-        LESS_THAN = 385,
-        GREATER_THAN = 386,
-        EXCLAMATION_MARK = 387,
-        QUOTATION_MARK = 388,
-        AMPERSAND = 389,
-        APOSTROPHE = 390,
-        ASTERISK = 391,
-        COMMA = 392,
-        FULL_STOP = 393,
-        HYPHEN_MINUS = 394,
-        SOLIDUS = 395,
-        COLON = 396,
-        SEMICOLON = 397,
-        EQUALS_SIGN = 398,
-        AT = 399,
-        VERTICAL_LINE = 400,
-        ACCENT = 401,
-        PLUS = 402,
-        STAR = 403,
-        GENERIC_IDENTIFIER_UPPERCASE = 404,
-        GENERIC_IDENTIFIER_LOWERCASE = 405,
-        GENERIC_INTEGER = 406,
-        xmlasn1typename = 407
+      enum token_kind_type
+      {
+        YYEMPTY = -2,
+    END_OF_FILE = 0,               // END_OF_FILE
+    YYerror = 256,                 // error
+    YYUNDEF = 257,                 // "invalid token"
+    comment = 258,                 // comment
+    number = 259,                  // number
+    negativenumber = 260,          // negativenumber
+    realnumber = 261,              // realnumber
+    bstring = 262,                 // bstring
+    xmlbstring = 263,              // xmlbstring
+    hstring = 264,                 // hstring
+    xmlhstring = 265,              // xmlhstring
+    cstring = 266,                 // cstring
+    xmlcstring = 267,              // xmlcstring
+    simplestring = 268,            // simplestring
+    xmltstring = 269,              // xmltstring
+    psname = 270,                  // psname
+    encodingreference = 271,       // encodingreference
+    integerUnicodeLabel = 272,     // integerUnicodeLabel
+    tstring = 275,                 // tstring
+    objectreference = 277,         // objectreference
+    objectsetreference = 278,      // objectsetreference
+    typefieldreference = 279,      // typefieldreference
+    valuefieldreference = 280,     // valuefieldreference
+    valuesetfieldreference = 281,  // valuesetfieldreference
+    objectfieldreference = 282,    // objectfieldreference
+    objectsetfieldreference = 283, // objectsetfieldreference
+    ABSENT = 284,                  // ABSENT
+    ABSTRACT_SYNTAX = 285,         // ABSTRACT_SYNTAX
+    ALL = 286,                     // ALL
+    ANY = 287,                     // ANY
+    APPLICATION = 288,             // APPLICATION
+    ASN_NULL = 289,                // ASN_NULL
+    AUTOMATIC = 290,               // AUTOMATIC
+    BEGIN = 291,                   // BEGIN
+    BIT = 292,                     // BIT
+    BMPString = 293,               // BMPString
+    BOOLEAN = 294,                 // BOOLEAN
+    BY = 295,                      // BY
+    CHARACTER = 296,               // CHARACTER
+    CHOICE = 297,                  // CHOICE
+    CLASS = 298,                   // CLASS
+    COMPONENT = 299,               // COMPONENT
+    COMPONENTS = 300,              // COMPONENTS
+    CONSTRAINED = 301,             // CONSTRAINED
+    CONTAINING = 302,              // CONTAINING
+    DATE = 303,                    // DATE
+    DATE_TIME = 304,               // DATE_TIME
+    DEFAULT = 305,                 // DEFAULT
+    DEFINITIONS = 306,             // DEFINITIONS
+    DURATION = 307,                // DURATION
+    EMBEDDED = 308,                // EMBEDDED
+    ENCODED = 309,                 // ENCODED
+    ENCODING_CONTROL = 310,        // ENCODING_CONTROL
+    END = 311,                     // END
+    ENUMERATED = 312,              // ENUMERATED
+    EXCEPT = 313,                  // EXCEPT
+    EXPLICIT = 314,                // EXPLICIT
+    EXPORTS = 315,                 // EXPORTS
+    EXTENSIBILITY = 316,           // EXTENSIBILITY
+    EXTERNAL = 317,                // EXTERNAL
+    FALSE = 318,                   // FALSE
+    FROM = 319,                    // FROM
+    GeneralizedTime = 320,         // GeneralizedTime
+    GeneralString = 321,           // GeneralString
+    GraphicString = 322,           // GraphicString
+    IA5String = 323,               // IA5String
+    IDENTIFIER = 324,              // IDENTIFIER
+    IMPLICIT = 325,                // IMPLICIT
+    IMPLIED = 326,                 // IMPLIED
+    IMPORTS = 327,                 // IMPORTS
+    INCLUDES = 328,                // "INCLUDES"
+    INSTANCE = 329,                // INSTANCE
+    INSTRUCTIONS = 330,            // INSTRUCTIONS
+    INTEGER = 331,                 // INTEGER
+    INTERSECTION = 332,            // INTERSECTION
+    ISO646String = 333,            // ISO646String
+    MAX = 334,                     // MAX
+    MIN = 335,                     // MIN
+    MINUS_INFINITY = 336,          // MINUS_INFINITY
+    NOT_A_NUMBER = 337,            // NOT_A_NUMBER
+    NumericString = 338,           // NumericString
+    OBJECT = 339,                  // OBJECT
+    ObjectDescriptor = 340,        // ObjectDescriptor
+    OCTET = 341,                   // OCTET
+    OF = 342,                      // OF
+    OID_IRI = 343,                 // OID_IRI
+    OPTIONAL = 344,                // OPTIONAL
+    PATTERN = 345,                 // PATTERN
+    PDV = 346,                     // PDV
+    PLUS_INFINITY = 347,           // PLUS_INFINITY
+    PRESENT = 348,                 // PRESENT
+    PrintableString = 349,         // PrintableString
+    PRIVATE = 350,                 // PRIVATE
+    REAL = 351,                    // REAL
+    RELATIVE_OID = 352,            // RELATIVE_OID
+    RELATIVE_OID_IRI = 353,        // RELATIVE_OID_IRI
+    SEQUENCE = 354,                // SEQUENCE
+    SET = 355,                     // SET
+    SETTINGS = 356,                // SETTINGS
+    SIZE = 357,                    // SIZE
+    STRING = 358,                  // STRING
+    SYNTAX = 359,                  // SYNTAX
+    T61String = 360,               // T61String
+    TAGS = 361,                    // TAGS
+    TeletexString = 362,           // TeletexString
+    TIME = 363,                    // TIME
+    TIME_OF_DAY = 364,             // TIME_OF_DAY
+    TRUE = 365,                    // TRUE
+    TYPE_IDENTIFIER = 366,         // TYPE_IDENTIFIER
+    UNION = 367,                   // UNION
+    UNIQUE = 368,                  // UNIQUE
+    UNIVERSAL = 369,               // UNIVERSAL
+    UniversalString = 370,         // UniversalString
+    UTCTime = 371,                 // UTCTime
+    UTF8String = 372,              // UTF8String
+    VideotexString = 373,          // VideotexString
+    VisibleString = 374,           // VisibleString
+    WITH = 375,                    // WITH
+    DEFINED_AS = 376,              // "::="
+    ELIPSIS = 377,                 // "..."
+    RANGE = 378,                   // ".."
+    OPEN_BRACE = 379,              // "{"
+    CLOSE_BRACE = 380,             // "}"
+    OPEN_PARENTHESIS = 381,        // "("
+    CLOSE_PARENTHESIS = 382,       // ")"
+    OPEN_SQUARE_BRACKET = 383,     // "["
+    CLOSE_SQUARE_BRACKET = 384,    // "]"
+    LESS_THAN = 385,               // "<"
+    GREATER_THAN = 386,            // ">"
+    EXCLAMATION_MARK = 387,        // "!"
+    QUOTATION_MARK = 388,          // "\""
+    AMPERSAND = 389,               // "&"
+    APOSTROPHE = 390,              // "\'"
+    ASTERISK = 391,                // "*"
+    COMMA = 392,                   // ","
+    FULL_STOP = 393,               // "."
+    HYPHEN_MINUS = 394,            // "-"
+    SOLIDUS = 395,                 // "/"
+    COLON = 396,                   // ":"
+    SEMICOLON = 397,               // ";"
+    EQUALS_SIGN = 398,             // "="
+    AT = 399,                      // "@"
+    VERTICAL_LINE = 400,           // "|"
+    ACCENT = 401,                  // "^"
+    PLUS = 402,                    // PLUS
+    STAR = 403,                    // STAR
+    GENERIC_IDENTIFIER_UPPERCASE = 404, // GENERIC_IDENTIFIER_UPPERCASE
+    GENERIC_IDENTIFIER_LOWERCASE = 405, // GENERIC_IDENTIFIER_LOWERCASE
+    GENERIC_INTEGER = 406,         // GENERIC_INTEGER
+    xmlasn1typename = 407          // xmlasn1typename
       };
+      /// Backward compatibility alias (Bison 3.6).
+      typedef token_kind_type yytokentype;
     };
 
-    /// (External) token type, as returned by yylex.
-    typedef token::yytokentype token_type;
+    /// Token kind, as returned by yylex.
+    typedef token::token_kind_type token_kind_type;
 
-    /// Symbol type: an internal symbol number.
-    typedef int symbol_number_type;
+    /// Backward compatibility alias (Bison 3.6).
+    typedef token_kind_type token_type;
 
-    /// The symbol type number to denote an empty symbol.
-    enum { empty_symbol = -2 };
+    /// Symbol kinds.
+    struct symbol_kind
+    {
+      enum symbol_kind_type
+      {
+        YYNTOKENS = 153, ///< Number of tokens.
+        S_YYEMPTY = -2,
+        S_YYEOF = 0,                             // END_OF_FILE
+        S_YYerror = 1,                           // error
+        S_YYUNDEF = 2,                           // "invalid token"
+        S_comment = 3,                           // comment
+        S_number = 4,                            // number
+        S_negativenumber = 5,                    // negativenumber
+        S_realnumber = 6,                        // realnumber
+        S_bstring = 7,                           // bstring
+        S_xmlbstring = 8,                        // xmlbstring
+        S_hstring = 9,                           // hstring
+        S_xmlhstring = 10,                       // xmlhstring
+        S_cstring = 11,                          // cstring
+        S_xmlcstring = 12,                       // xmlcstring
+        S_simplestring = 13,                     // simplestring
+        S_xmltstring = 14,                       // xmltstring
+        S_psname = 15,                           // psname
+        S_encodingreference = 16,                // encodingreference
+        S_integerUnicodeLabel = 17,              // integerUnicodeLabel
+        S_18_non_integerUnicodeLabel = 18,       // non-integerUnicodeLabel
+        S_19_extended_true = 19,                 // extended-true
+        S_tstring = 20,                          // tstring
+        S_21_extended_false = 21,                // extended-false
+        S_objectreference = 22,                  // objectreference
+        S_objectsetreference = 23,               // objectsetreference
+        S_typefieldreference = 24,               // typefieldreference
+        S_valuefieldreference = 25,              // valuefieldreference
+        S_valuesetfieldreference = 26,           // valuesetfieldreference
+        S_objectfieldreference = 27,             // objectfieldreference
+        S_objectsetfieldreference = 28,          // objectsetfieldreference
+        S_ABSENT = 29,                           // ABSENT
+        S_ABSTRACT_SYNTAX = 30,                  // ABSTRACT_SYNTAX
+        S_ALL = 31,                              // ALL
+        S_ANY = 32,                              // ANY
+        S_APPLICATION = 33,                      // APPLICATION
+        S_ASN_NULL = 34,                         // ASN_NULL
+        S_AUTOMATIC = 35,                        // AUTOMATIC
+        S_BEGIN = 36,                            // BEGIN
+        S_BIT = 37,                              // BIT
+        S_BMPString = 38,                        // BMPString
+        S_BOOLEAN = 39,                          // BOOLEAN
+        S_BY = 40,                               // BY
+        S_CHARACTER = 41,                        // CHARACTER
+        S_CHOICE = 42,                           // CHOICE
+        S_CLASS = 43,                            // CLASS
+        S_COMPONENT = 44,                        // COMPONENT
+        S_COMPONENTS = 45,                       // COMPONENTS
+        S_CONSTRAINED = 46,                      // CONSTRAINED
+        S_CONTAINING = 47,                       // CONTAINING
+        S_DATE = 48,                             // DATE
+        S_DATE_TIME = 49,                        // DATE_TIME
+        S_DEFAULT = 50,                          // DEFAULT
+        S_DEFINITIONS = 51,                      // DEFINITIONS
+        S_DURATION = 52,                         // DURATION
+        S_EMBEDDED = 53,                         // EMBEDDED
+        S_ENCODED = 54,                          // ENCODED
+        S_ENCODING_CONTROL = 55,                 // ENCODING_CONTROL
+        S_END = 56,                              // END
+        S_ENUMERATED = 57,                       // ENUMERATED
+        S_EXCEPT = 58,                           // EXCEPT
+        S_EXPLICIT = 59,                         // EXPLICIT
+        S_EXPORTS = 60,                          // EXPORTS
+        S_EXTENSIBILITY = 61,                    // EXTENSIBILITY
+        S_EXTERNAL = 62,                         // EXTERNAL
+        S_FALSE = 63,                            // FALSE
+        S_FROM = 64,                             // FROM
+        S_GeneralizedTime = 65,                  // GeneralizedTime
+        S_GeneralString = 66,                    // GeneralString
+        S_GraphicString = 67,                    // GraphicString
+        S_IA5String = 68,                        // IA5String
+        S_IDENTIFIER = 69,                       // IDENTIFIER
+        S_IMPLICIT = 70,                         // IMPLICIT
+        S_IMPLIED = 71,                          // IMPLIED
+        S_IMPORTS = 72,                          // IMPORTS
+        S_INCLUDES = 73,                         // "INCLUDES"
+        S_INSTANCE = 74,                         // INSTANCE
+        S_INSTRUCTIONS = 75,                     // INSTRUCTIONS
+        S_INTEGER = 76,                          // INTEGER
+        S_INTERSECTION = 77,                     // INTERSECTION
+        S_ISO646String = 78,                     // ISO646String
+        S_MAX = 79,                              // MAX
+        S_MIN = 80,                              // MIN
+        S_MINUS_INFINITY = 81,                   // MINUS_INFINITY
+        S_NOT_A_NUMBER = 82,                     // NOT_A_NUMBER
+        S_NumericString = 83,                    // NumericString
+        S_OBJECT = 84,                           // OBJECT
+        S_ObjectDescriptor = 85,                 // ObjectDescriptor
+        S_OCTET = 86,                            // OCTET
+        S_OF = 87,                               // OF
+        S_OID_IRI = 88,                          // OID_IRI
+        S_OPTIONAL = 89,                         // OPTIONAL
+        S_PATTERN = 90,                          // PATTERN
+        S_PDV = 91,                              // PDV
+        S_PLUS_INFINITY = 92,                    // PLUS_INFINITY
+        S_PRESENT = 93,                          // PRESENT
+        S_PrintableString = 94,                  // PrintableString
+        S_PRIVATE = 95,                          // PRIVATE
+        S_REAL = 96,                             // REAL
+        S_RELATIVE_OID = 97,                     // RELATIVE_OID
+        S_RELATIVE_OID_IRI = 98,                 // RELATIVE_OID_IRI
+        S_SEQUENCE = 99,                         // SEQUENCE
+        S_SET = 100,                             // SET
+        S_SETTINGS = 101,                        // SETTINGS
+        S_SIZE = 102,                            // SIZE
+        S_STRING = 103,                          // STRING
+        S_SYNTAX = 104,                          // SYNTAX
+        S_T61String = 105,                       // T61String
+        S_TAGS = 106,                            // TAGS
+        S_TeletexString = 107,                   // TeletexString
+        S_TIME = 108,                            // TIME
+        S_TIME_OF_DAY = 109,                     // TIME_OF_DAY
+        S_TRUE = 110,                            // TRUE
+        S_TYPE_IDENTIFIER = 111,                 // TYPE_IDENTIFIER
+        S_UNION = 112,                           // UNION
+        S_UNIQUE = 113,                          // UNIQUE
+        S_UNIVERSAL = 114,                       // UNIVERSAL
+        S_UniversalString = 115,                 // UniversalString
+        S_UTCTime = 116,                         // UTCTime
+        S_UTF8String = 117,                      // UTF8String
+        S_VideotexString = 118,                  // VideotexString
+        S_VisibleString = 119,                   // VisibleString
+        S_WITH = 120,                            // WITH
+        S_DEFINED_AS = 121,                      // "::="
+        S_ELIPSIS = 122,                         // "..."
+        S_RANGE = 123,                           // ".."
+        S_OPEN_BRACE = 124,                      // "{"
+        S_CLOSE_BRACE = 125,                     // "}"
+        S_OPEN_PARENTHESIS = 126,                // "("
+        S_CLOSE_PARENTHESIS = 127,               // ")"
+        S_OPEN_SQUARE_BRACKET = 128,             // "["
+        S_CLOSE_SQUARE_BRACKET = 129,            // "]"
+        S_LESS_THAN = 130,                       // "<"
+        S_GREATER_THAN = 131,                    // ">"
+        S_EXCLAMATION_MARK = 132,                // "!"
+        S_QUOTATION_MARK = 133,                  // "\""
+        S_AMPERSAND = 134,                       // "&"
+        S_APOSTROPHE = 135,                      // "\'"
+        S_ASTERISK = 136,                        // "*"
+        S_COMMA = 137,                           // ","
+        S_FULL_STOP = 138,                       // "."
+        S_HYPHEN_MINUS = 139,                    // "-"
+        S_SOLIDUS = 140,                         // "/"
+        S_COLON = 141,                           // ":"
+        S_SEMICOLON = 142,                       // ";"
+        S_EQUALS_SIGN = 143,                     // "="
+        S_AT = 144,                              // "@"
+        S_VERTICAL_LINE = 145,                   // "|"
+        S_ACCENT = 146,                          // "^"
+        S_PLUS = 147,                            // PLUS
+        S_STAR = 148,                            // STAR
+        S_GENERIC_IDENTIFIER_UPPERCASE = 149,    // GENERIC_IDENTIFIER_UPPERCASE
+        S_GENERIC_IDENTIFIER_LOWERCASE = 150,    // GENERIC_IDENTIFIER_LOWERCASE
+        S_GENERIC_INTEGER = 151,                 // GENERIC_INTEGER
+        S_xmlasn1typename = 152,                 // xmlasn1typename
+        S_YYACCEPT = 153,                        // $accept
+        S_ModuleDefinitionList = 154,            // ModuleDefinitionList
+        S_ModuleDefinition = 155,                // ModuleDefinition
+        S_SyntaxList = 156,                      // SyntaxList
+        S_DefinedObjectClass = 157,              // DefinedObjectClass
+        S_ExternalObjectClassReference = 158,    // ExternalObjectClassReference
+        S_UsefulObjectClassReference = 159,      // UsefulObjectClassReference
+        S_ObjectClassAssignment = 160,           // ObjectClassAssignment
+        S_ObjectClass = 161,                     // ObjectClass
+        S_ObjectClassDefn = 162,                 // ObjectClassDefn
+        S_FieldSpecList = 163,                   // FieldSpecList
+        S_FieldSpec = 164,                       // FieldSpec
+        S_FieldName = 165,                       // FieldName
+        S_FieldNameList = 166,                   // FieldNameList
+        S_TypeFieldSpec = 167,                   // TypeFieldSpec
+        S_OneOrManyTypeFieldReference = 168,     // OneOrManyTypeFieldReference
+        S_TypeOptionalitySpec = 169,             // TypeOptionalitySpec
+        S_OptionalUnique = 170,                  // OptionalUnique
+        S_FixedTypeValueFieldSpec = 171,         // FixedTypeValueFieldSpec
+        S_ValueOptionalitySpec = 172,            // ValueOptionalitySpec
+        S_VariableTypeValueFieldSpec = 173,      // VariableTypeValueFieldSpec
+        S_FixedTypeValueSetFieldSpec = 174,      // FixedTypeValueSetFieldSpec
+        S_ValueSetDefaultSpec = 175,             // ValueSetDefaultSpec
+        S_ObjectFieldSpec = 176,                 // ObjectFieldSpec
+        S_ObjectOptionalitySpec = 177,           // ObjectOptionalitySpec
+        S_ObjectSetFieldSpec = 178,              // ObjectSetFieldSpec
+        S_ObjectSetOptionalitySpec = 179,        // ObjectSetOptionalitySpec
+        S_WithSyntaxSpec = 180,                  // WithSyntaxSpec
+        S_TokenOrGroupSpecList = 181,            // TokenOrGroupSpecList
+        S_TokenOrGroupSpec = 182,                // TokenOrGroupSpec
+        S_OptionalGroup = 183,                   // OptionalGroup
+        S_RequiredToken = 184,                   // RequiredToken
+        S_LiteralList = 185,                     // LiteralList
+        S_Literal = 186,                         // Literal
+        S_DefinedObject = 187,                   // DefinedObject
+        S_ExternalObjectReference = 188,         // ExternalObjectReference
+        S_Object = 189,                          // Object
+        S_ObjectDefn = 190,                      // ObjectDefn
+        S_DefaultSyntax = 191,                   // DefaultSyntax
+        S_FieldSetting = 192,                    // FieldSetting
+        S_DefinedSyntax = 193,                   // DefinedSyntax
+        S_DefinedSyntaxList = 194,               // DefinedSyntaxList
+        S_DefinedSyntaxToken = 195,              // DefinedSyntaxToken
+        S_Setting = 196,                         // Setting
+        S_DefinedObjectSet = 197,                // DefinedObjectSet
+        S_ExternalObjectSetReference = 198,      // ExternalObjectSetReference
+        S_ObjectSetAssignment = 199,             // ObjectSetAssignment
+        S_ObjectSet = 200,                       // ObjectSet
+        S_ObjectSetSpec = 201,                   // ObjectSetSpec
+        S_ObjectClassFieldType = 202,            // ObjectClassFieldType
+        S_ParameterizedAssignment = 203,         // ParameterizedAssignment
+        S_ParameterizedTypeAssignment = 204,     // ParameterizedTypeAssignment
+        S_ParameterizedValueAssignment = 205,    // ParameterizedValueAssignment
+        S_ParameterizedValueSetTypeAssignment = 206, // ParameterizedValueSetTypeAssignment
+        S_ParameterizedObjectClassAssignment = 207, // ParameterizedObjectClassAssignment
+        S_ParameterList = 208,                   // ParameterList
+        S_ParameterSeries = 209,                 // ParameterSeries
+        S_Parameter = 210,                       // Parameter
+        S_ParamGovernor = 211,                   // ParamGovernor
+        S_Governor = 212,                        // Governor
+        S_ReferencedObjects = 213,               // ReferencedObjects
+        S_TypeFromObject = 214,                  // TypeFromObject
+        S_InstanceOfType = 215,                  // InstanceOfType
+        S_SimpleDefinedType = 216,               // SimpleDefinedType
+        S_SimpleDefinedValue = 217,              // SimpleDefinedValue
+        S_GeneralConstraint = 218,               // GeneralConstraint
+        S_UserDefinedConstraint = 219,           // UserDefinedConstraint
+        S_UserDefinedConstraintParameter = 220,  // UserDefinedConstraintParameter
+        S_TableConstraint = 221,                 // TableConstraint
+        S_AtNotationList = 222,                  // AtNotationList
+        S_AtNotation = 223,                      // AtNotation
+        S_Level = 224,                           // Level
+        S_ComponentIdList = 225,                 // ComponentIdList
+        S_ContentsConstraint = 226,              // ContentsConstraint
+        S_EncodingControlSections = 227,         // EncodingControlSections
+        S_ModuleIdentifier = 228,                // ModuleIdentifier
+        S_DefinitiveIdentification = 229,        // DefinitiveIdentification
+        S_DefinitiveOID = 230,                   // DefinitiveOID
+        S_DefinitiveOIDandIRI = 231,             // DefinitiveOIDandIRI
+        S_DefinitiveObjIdComponentList = 232,    // DefinitiveObjIdComponentList
+        S_DefinitiveObjIdComponent = 233,        // DefinitiveObjIdComponent
+        S_DefinitiveNumberForm = 234,            // DefinitiveNumberForm
+        S_DefinitiveNameAndNumberForm = 235,     // DefinitiveNameAndNumberForm
+        S_EncodingReferenceDefault = 236,        // EncodingReferenceDefault
+        S_TagDefault = 237,                      // TagDefault
+        S_ExtensionDefault = 238,                // ExtensionDefault
+        S_ModuleBody = 239,                      // ModuleBody
+        S_Exports = 240,                         // Exports
+        S_SymbolsExported = 241,                 // SymbolsExported
+        S_Imports = 242,                         // Imports
+        S_SymbolsImported = 243,                 // SymbolsImported
+        S_SymbolsFromModuleList = 244,           // SymbolsFromModuleList
+        S_SymbolsFromModule = 245,               // SymbolsFromModule
+        S_GlobalModuleReference = 246,           // GlobalModuleReference
+        S_SymbolList = 247,                      // SymbolList
+        S_Symbol = 248,                          // Symbol
+        S_Reference = 249,                       // Reference
+        S_AssignmentList = 250,                  // AssignmentList
+        S_Assignment = 251,                      // Assignment
+        S_DefinedType = 252,                     // DefinedType
+        S_DefinedValue = 253,                    // DefinedValue
+        S_ParameterizedType = 254,               // ParameterizedType
+        S_ParameterizedValue = 255,              // ParameterizedValue
+        S_ActualParameterList = 256,             // ActualParameterList
+        S_ActualParameter = 257,                 // ActualParameter
+        S_ExternalTypeReference = 258,           // ExternalTypeReference
+        S_ExternalValueReference = 259,          // ExternalValueReference
+        S_TypeAssignment = 260,                  // TypeAssignment
+        S_ValueAssignment = 261,                 // ValueAssignment
+        S_ValueSetTypeAssignment = 262,          // ValueSetTypeAssignment
+        S_Type = 263,                            // Type
+        S_BuiltinType = 264,                     // BuiltinType
+        S_NamedType = 265,                       // NamedType
+        S_ValueWithoutTypeIdentifier = 266,      // ValueWithoutTypeIdentifier
+        S_Value = 267,                           // Value
+        S_ValueCommaListChoice = 268,            // ValueCommaListChoice
+        S_ValueChoice = 269,                     // ValueChoice
+        S_ValueSet = 270,                        // ValueSet
+        S_SequenceOfValues = 271,                // SequenceOfValues
+        S_BooleanType = 272,                     // BooleanType
+        S_BooleanValue = 273,                    // BooleanValue
+        S_IntegerType = 274,                     // IntegerType
+        S_NamedNumberList = 275,                 // NamedNumberList
+        S_NamedNumber = 276,                     // NamedNumber
+        S_SignedNumber = 277,                    // SignedNumber
+        S_EnumeratedType = 278,                  // EnumeratedType
+        S_Enumerations = 279,                    // Enumerations
+        S_Enumeration = 280,                     // Enumeration
+        S_EnumerationItem = 281,                 // EnumerationItem
+        S_RealType = 282,                        // RealType
+        S_BitStringType = 283,                   // BitStringType
+        S_NamedBitList = 284,                    // NamedBitList
+        S_NamedBit = 285,                        // NamedBit
+        S_OctetStringType = 286,                 // OctetStringType
+        S_NullType = 287,                        // NullType
+        S_SequenceType = 288,                    // SequenceType
+        S_ComponentTypeLists = 289,              // ComponentTypeLists
+        S_ComponentTypeList = 290,               // ComponentTypeList
+        S_ComponentType = 291,                   // ComponentType
+        S_SequenceOfType = 292,                  // SequenceOfType
+        S_SetType = 293,                         // SetType
+        S_SetOfType = 294,                       // SetOfType
+        S_ChoiceType = 295,                      // ChoiceType
+        S_AlternativeTypeLists = 296,            // AlternativeTypeLists
+        S_RootAlternativeTypeList = 297,         // RootAlternativeTypeList
+        S_AlternativeTypeList = 298,             // AlternativeTypeList
+        S_SelectionType = 299,                   // SelectionType
+        S_PrefixedType = 300,                    // PrefixedType
+        S_TaggedType = 301,                      // TaggedType
+        S_Tag = 302,                             // Tag
+        S_EncodingReference = 303,               // EncodingReference
+        S_ClassNumber = 304,                     // ClassNumber
+        S_Class = 305,                           // Class
+        S_ObjectIdentifierType = 306,            // ObjectIdentifierType
+        S_ObjectIdentifierValue = 307,           // ObjectIdentifierValue
+        S_ObjIdComponentsList = 308,             // ObjIdComponentsList
+        S_ObjIdComponents = 309,                 // ObjIdComponents
+        S_NameForm = 310,                        // NameForm
+        S_NumberForm = 311,                      // NumberForm
+        S_NameAndNumberForm = 312,               // NameAndNumberForm
+        S_RelativeOIDType = 313,                 // RelativeOIDType
+        S_IRIType = 314,                         // IRIType
+        S_IRIValue = 315,                        // IRIValue
+        S_FirstArcIdentifier = 316,              // FirstArcIdentifier
+        S_SubsequentArcIdentifier = 317,         // SubsequentArcIdentifier
+        S_ArcIdentifier = 318,                   // ArcIdentifier
+        S_RelativeIRIType = 319,                 // RelativeIRIType
+        S_EmbeddedPDVType = 320,                 // EmbeddedPDVType
+        S_ExternalType = 321,                    // ExternalType
+        S_TimeType = 322,                        // TimeType
+        S_TimeValue = 323,                       // TimeValue
+        S_DateType = 324,                        // DateType
+        S_TimeOfDayType = 325,                   // TimeOfDayType
+        S_DateTimeType = 326,                    // DateTimeType
+        S_DurationType = 327,                    // DurationType
+        S_CharacterStringType = 328,             // CharacterStringType
+        S_RestrictedCharacterStringType = 329,   // RestrictedCharacterStringType
+        S_UnrestrictedCharacterStringType = 330, // UnrestrictedCharacterStringType
+        S_ConstrainedType = 331,                 // ConstrainedType
+        S_TypeWithConstraint = 332,              // TypeWithConstraint
+        S_Constraint = 333,                      // Constraint
+        S_ConstraintSpec = 334,                  // ConstraintSpec
+        S_SubtypeConstraint = 335,               // SubtypeConstraint
+        S_ElementSetSpecs = 336,                 // ElementSetSpecs
+        S_ElementSetSpec = 337,                  // ElementSetSpec
+        S_Unions = 338,                          // Unions
+        S_UElems = 339,                          // UElems
+        S_Intersections = 340,                   // Intersections
+        S_IElems = 341,                          // IElems
+        S_IntersectionElements = 342,            // IntersectionElements
+        S_Elems = 343,                           // Elems
+        S_Exclusions = 344,                      // Exclusions
+        S_UnionMark = 345,                       // UnionMark
+        S_IntersectionMark = 346,                // IntersectionMark
+        S_Elements = 347,                        // Elements
+        S_SubtypeElements = 348,                 // SubtypeElements
+        S_SingleValue = 349,                     // SingleValue
+        S_ContainedSubtype = 350,                // ContainedSubtype
+        S_Includes = 351,                        // Includes
+        S_ValueRange = 352,                      // ValueRange
+        S_LowerEndpoint = 353,                   // LowerEndpoint
+        S_UpperEndpoint = 354,                   // UpperEndpoint
+        S_LowerEndValue = 355,                   // LowerEndValue
+        S_UpperEndValue = 356,                   // UpperEndValue
+        S_SizeConstraint = 357,                  // SizeConstraint
+        S_TypeConstraint = 358,                  // TypeConstraint
+        S_PermittedAlphabet = 359,               // PermittedAlphabet
+        S_InnerTypeConstraints = 360,            // InnerTypeConstraints
+        S_SingleTypeConstraint = 361,            // SingleTypeConstraint
+        S_MultipleTypeConstraints = 362,         // MultipleTypeConstraints
+        S_TypeConstraints = 363,                 // TypeConstraints
+        S_NamedConstraint = 364,                 // NamedConstraint
+        S_ComponentConstraint = 365,             // ComponentConstraint
+        S_ValueConstraint = 366,                 // ValueConstraint
+        S_PresenceConstraint = 367,              // PresenceConstraint
+        S_PatternConstraint = 368,               // PatternConstraint
+        S_PropertySettings = 369,                // PropertySettings
+        S_ExceptionSpec = 370,                   // ExceptionSpec
+        S_ExceptionIdentification = 371,         // ExceptionIdentification
+        S_typereference = 372,                   // typereference
+        S_identifier = 373,                      // identifier
+        S_valuereference = 374,                  // valuereference
+        S_modulereference = 375,                 // modulereference
+        S_objectclassreference = 376,            // objectclassreference
+        S_word = 377                             // word
+      };
+    };
+
+    /// (Internal) symbol kind.
+    typedef symbol_kind::symbol_kind_type symbol_kind_type;
 
-    /// Internal symbol number for tokens (subsumed by symbol_number_type).
-    typedef unsigned char token_number_type;
+    /// The number of tokens.
+    static const symbol_kind_type YYNTOKENS = symbol_kind::YYNTOKENS;
 
     /// A complete symbol.
     ///
-    /// Expects its Base type to provide access to the symbol type
-    /// via type_get ().
+    /// Expects its Base type to provide access to the symbol kind
+    /// via kind ().
     ///
     /// Provide access to semantic value and location.
     template <typename Base>
@@ -1104,20 +1519,356 @@ namespace yy {
       typedef Base super_type;
 
       /// Default constructor.
-      basic_symbol ()
+      basic_symbol () YY_NOEXCEPT
         : value ()
         , location ()
       {}
 
 #if 201103L <= YY_CPLUSPLUS
       /// Move constructor.
-      basic_symbol (basic_symbol&& that);
+      basic_symbol (basic_symbol&& that)
+        : Base (std::move (that))
+        , value ()
+        , location (std::move (that.location))
+      {
+        switch (this->kind ())
+    {
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
+        value.move< Assignment > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BitStringType: // BitStringType
+        value.move< BitStringType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BooleanType: // BooleanType
+        value.move< BooleanType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BooleanValue: // BooleanValue
+        value.move< BooleanValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BuiltinType: // BuiltinType
+        value.move< BuiltinType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
+        value.move< CharacterStringType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ChoiceType: // ChoiceType
+        value.move< ChoiceType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Class: // Class
+        value.move< Class > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
+        value.move< Collection > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ComponentType: // ComponentType
+        value.move< ComponentType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
+        value.move< ComponentTypeList > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DateTimeType: // DateTimeType
+        value.move< DateTimeType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DateType: // DateType
+        value.move< DateType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
+        value.move< DefinedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DefinedValue: // DefinedValue
+        value.move< DefinedValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DurationType: // DurationType
+        value.move< DurationType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
+        value.move< EmbeddedPDVType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
+        value.move< EnumeratedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
+        value.move< EnumerationValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ExternalType: // ExternalType
+        value.move< ExternalType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_IRIType: // IRIType
+        value.move< IRIType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
+        value.move< Import > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
+        value.move< InstanceOfType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_IntegerType: // IntegerType
+        value.move< IntegerType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ModuleBody: // ModuleBody
+        value.move< Module > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NamedNumber: // NamedNumber
+        value.move< NamedNumber > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NamedType: // NamedType
+        value.move< NamedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NullType: // NullType
+        value.move< NullType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
+        value.move< ObjectClassAssignment > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
+        value.move< ObjectClassFieldType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
+        value.move< ObjectIdComponentValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
+        value.move< ObjectIdentifierType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_OctetStringType: // OctetStringType
+        value.move< OctetStringType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Parameter: // Parameter
+        value.move< Parameter > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_PrefixedType: // PrefixedType
+        value.move< PrefixedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_RealType: // RealType
+        value.move< RealType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
+        value.move< RelativeIRIType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
+        value.move< RelativeOIDType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
+        value.move< SequenceOfType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SequenceType: // SequenceType
+        value.move< SequenceType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SetOfType: // SetOfType
+        value.move< SetOfType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SetType: // SetType
+        value.move< SetType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Tag: // Tag
+        value.move< Tag > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TaggedType: // TaggedType
+        value.move< TaggedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TagDefault: // TagDefault
+        value.move< TaggingMode > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
+        value.move< TimeOfDayType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TimeType: // TimeType
+        value.move< TimeType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TimeValue: // TimeValue
+        value.move< TimeValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
+        value.move< Type > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
+        value.move< Value > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_realnumber: // realnumber
+        value.move< double > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ClassNumber: // ClassNumber
+        value.move< int > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
+        value.move< int64_t > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
+        value.move< std::string > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_AssignmentList: // AssignmentList
+        value.move< std::vector<Assignment> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
+        value.move< std::vector<ClassField> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Exports: // Exports
+        value.move< std::vector<Export> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
+        value.move< std::vector<Import> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
+        value.move< std::vector<NamedNumber> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
+        value.move< std::vector<NamedType> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
+        value.move< std::vector<ObjectIdComponentValue> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
+        value.move< std::vector<Parameter> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
+        value.move< std::vector<Type> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
+        value.move< std::vector<Value> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
+        value.move< std::vector<std::string> > (std::move (that.value));
+        break;
+
+      default:
+        break;
+    }
+
+      }
 #endif
 
       /// Copy constructor.
       basic_symbol (const basic_symbol& that);
 
-      /// Constructor for valueless symbols, and symbols from each type.
+      /// Constructors for typed symbols.
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, location_type&& l)
         : Base (t)
@@ -1129,6 +1880,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Assignment&& v, location_type&& l)
         : Base (t)
@@ -1142,6 +1894,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BitStringType&& v, location_type&& l)
         : Base (t)
@@ -1155,6 +1908,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BooleanType&& v, location_type&& l)
         : Base (t)
@@ -1168,6 +1922,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BooleanValue&& v, location_type&& l)
         : Base (t)
@@ -1181,6 +1936,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BuiltinType&& v, location_type&& l)
         : Base (t)
@@ -1194,6 +1950,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, CharacterStringType&& v, location_type&& l)
         : Base (t)
@@ -1207,6 +1964,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ChoiceType&& v, location_type&& l)
         : Base (t)
@@ -1220,6 +1978,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Class&& v, location_type&& l)
         : Base (t)
@@ -1233,6 +1992,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Collection&& v, location_type&& l)
         : Base (t)
@@ -1246,6 +2006,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ComponentType&& v, location_type&& l)
         : Base (t)
@@ -1259,6 +2020,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ComponentTypeList&& v, location_type&& l)
         : Base (t)
@@ -1272,6 +2034,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DateTimeType&& v, location_type&& l)
         : Base (t)
@@ -1285,6 +2048,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DateType&& v, location_type&& l)
         : Base (t)
@@ -1298,6 +2062,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DefinedType&& v, location_type&& l)
         : Base (t)
@@ -1311,6 +2076,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DefinedValue&& v, location_type&& l)
         : Base (t)
@@ -1324,6 +2090,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DurationType&& v, location_type&& l)
         : Base (t)
@@ -1337,6 +2104,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, EmbeddedPDVType&& v, location_type&& l)
         : Base (t)
@@ -1350,6 +2118,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, EnumeratedType&& v, location_type&& l)
         : Base (t)
@@ -1363,6 +2132,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, EnumerationValue&& v, location_type&& l)
         : Base (t)
@@ -1376,6 +2146,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ExternalType&& v, location_type&& l)
         : Base (t)
@@ -1389,6 +2160,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, IRIType&& v, location_type&& l)
         : Base (t)
@@ -1402,6 +2174,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Import&& v, location_type&& l)
         : Base (t)
@@ -1415,6 +2188,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, InstanceOfType&& v, location_type&& l)
         : Base (t)
@@ -1428,6 +2202,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, IntegerType&& v, location_type&& l)
         : Base (t)
@@ -1441,6 +2216,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Module&& v, location_type&& l)
         : Base (t)
@@ -1454,6 +2230,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, NamedNumber&& v, location_type&& l)
         : Base (t)
@@ -1467,6 +2244,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, NamedType&& v, location_type&& l)
         : Base (t)
@@ -1480,6 +2258,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, NullType&& v, location_type&& l)
         : Base (t)
@@ -1493,6 +2272,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectClassAssignment&& v, location_type&& l)
         : Base (t)
@@ -1506,6 +2286,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectClassFieldType&& v, location_type&& l)
         : Base (t)
@@ -1519,6 +2300,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectIdComponentValue&& v, location_type&& l)
         : Base (t)
@@ -1532,6 +2314,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectIdentifierType&& v, location_type&& l)
         : Base (t)
@@ -1545,6 +2328,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, OctetStringType&& v, location_type&& l)
         : Base (t)
@@ -1558,6 +2342,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Parameter&& v, location_type&& l)
         : Base (t)
@@ -1571,6 +2356,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, PrefixedType&& v, location_type&& l)
         : Base (t)
@@ -1584,6 +2370,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, RealType&& v, location_type&& l)
         : Base (t)
@@ -1597,6 +2384,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, RelativeIRIType&& v, location_type&& l)
         : Base (t)
@@ -1610,6 +2398,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, RelativeOIDType&& v, location_type&& l)
         : Base (t)
@@ -1623,6 +2412,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SequenceOfType&& v, location_type&& l)
         : Base (t)
@@ -1636,6 +2426,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SequenceType&& v, location_type&& l)
         : Base (t)
@@ -1649,6 +2440,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SetOfType&& v, location_type&& l)
         : Base (t)
@@ -1662,6 +2454,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SetType&& v, location_type&& l)
         : Base (t)
@@ -1675,6 +2468,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Tag&& v, location_type&& l)
         : Base (t)
@@ -1688,6 +2482,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TaggedType&& v, location_type&& l)
         : Base (t)
@@ -1701,6 +2496,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TaggingMode&& v, location_type&& l)
         : Base (t)
@@ -1714,6 +2510,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TimeOfDayType&& v, location_type&& l)
         : Base (t)
@@ -1727,6 +2524,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TimeType&& v, location_type&& l)
         : Base (t)
@@ -1740,6 +2538,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TimeValue&& v, location_type&& l)
         : Base (t)
@@ -1753,6 +2552,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Type&& v, location_type&& l)
         : Base (t)
@@ -1766,6 +2566,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Value&& v, location_type&& l)
         : Base (t)
@@ -1779,6 +2580,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, double&& v, location_type&& l)
         : Base (t)
@@ -1792,6 +2594,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, int&& v, location_type&& l)
         : Base (t)
@@ -1805,6 +2608,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, int64_t&& v, location_type&& l)
         : Base (t)
@@ -1818,6 +2622,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::string&& v, location_type&& l)
         : Base (t)
@@ -1831,6 +2636,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Assignment>&& v, location_type&& l)
         : Base (t)
@@ -1844,6 +2650,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<ClassField>&& v, location_type&& l)
         : Base (t)
@@ -1857,6 +2664,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Export>&& v, location_type&& l)
         : Base (t)
@@ -1870,6 +2678,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Import>&& v, location_type&& l)
         : Base (t)
@@ -1883,6 +2692,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<NamedNumber>&& v, location_type&& l)
         : Base (t)
@@ -1896,6 +2706,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<NamedType>&& v, location_type&& l)
         : Base (t)
@@ -1909,6 +2720,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<ObjectIdComponentValue>&& v, location_type&& l)
         : Base (t)
@@ -1922,6 +2734,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Parameter>&& v, location_type&& l)
         : Base (t)
@@ -1935,6 +2748,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Type>&& v, location_type&& l)
         : Base (t)
@@ -1948,6 +2762,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Value>&& v, location_type&& l)
         : Base (t)
@@ -1961,6 +2776,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<std::string>&& v, location_type&& l)
         : Base (t)
@@ -1981,344 +2797,346 @@ namespace yy {
         clear ();
       }
 
+
+
       /// Destroy contents, and record that is empty.
-      void clear ()
+      void clear () YY_NOEXCEPT
       {
         // User destructor.
-        symbol_number_type yytype = this->type_get ();
+        symbol_kind_type yykind = this->kind ();
         basic_symbol<Base>& yysym = *this;
         (void) yysym;
-        switch (yytype)
+        switch (yykind)
         {
        default:
           break;
         }
 
-        // Type destructor.
-switch (yytype)
+        // Value type destructor.
+switch (yykind)
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.template destroy< Assignment > ();
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.template destroy< BitStringType > ();
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.template destroy< BooleanType > ();
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.template destroy< BooleanValue > ();
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.template destroy< BuiltinType > ();
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.template destroy< CharacterStringType > ();
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.template destroy< ChoiceType > ();
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.template destroy< Class > ();
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.template destroy< Collection > ();
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.template destroy< ComponentType > ();
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.template destroy< ComponentTypeList > ();
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.template destroy< DateTimeType > ();
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.template destroy< DateType > ();
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.template destroy< DefinedType > ();
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.template destroy< DefinedValue > ();
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.template destroy< DurationType > ();
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.template destroy< EmbeddedPDVType > ();
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.template destroy< EnumeratedType > ();
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.template destroy< EnumerationValue > ();
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.template destroy< ExternalType > ();
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.template destroy< IRIType > ();
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.template destroy< Import > ();
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.template destroy< InstanceOfType > ();
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.template destroy< IntegerType > ();
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.template destroy< Module > ();
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.template destroy< NamedNumber > ();
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.template destroy< NamedType > ();
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.template destroy< NullType > ();
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.template destroy< ObjectClassAssignment > ();
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.template destroy< ObjectClassFieldType > ();
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.template destroy< ObjectIdComponentValue > ();
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.template destroy< ObjectIdentifierType > ();
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.template destroy< OctetStringType > ();
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.template destroy< Parameter > ();
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.template destroy< PrefixedType > ();
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.template destroy< RealType > ();
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.template destroy< RelativeIRIType > ();
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.template destroy< RelativeOIDType > ();
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.template destroy< SequenceOfType > ();
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.template destroy< SequenceType > ();
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.template destroy< SetOfType > ();
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.template destroy< SetType > ();
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.template destroy< Tag > ();
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.template destroy< TaggedType > ();
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.template destroy< TaggingMode > ();
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.template destroy< TimeOfDayType > ();
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.template destroy< TimeType > ();
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.template destroy< TimeValue > ();
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.template destroy< Type > ();
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.template destroy< Value > ();
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.template destroy< double > ();
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.template destroy< int > ();
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.template destroy< int64_t > ();
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.template destroy< std::string > ();
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.template destroy< std::vector<Assignment> > ();
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.template destroy< std::vector<ClassField> > ();
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.template destroy< std::vector<Export> > ();
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.template destroy< std::vector<Import> > ();
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.template destroy< std::vector<NamedNumber> > ();
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.template destroy< std::vector<NamedType> > ();
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.template destroy< std::vector<ObjectIdComponentValue> > ();
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.template destroy< std::vector<Parameter> > ();
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.template destroy< std::vector<Type> > ();
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.template destroy< std::vector<Value> > ();
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.template destroy< std::vector<std::string> > ();
         break;
 
@@ -2329,6 +3147,15 @@ switch (yytype)
         Base::clear ();
       }
 
+      /// The user-facing name of this symbol.
+      std::string name () const YY_NOEXCEPT
+      {
+        return asn1_parser::symbol_name (this->kind ());
+      }
+
+      /// Backward compatibility (Bison 3.6).
+      symbol_kind_type type_get () const YY_NOEXCEPT;
+
       /// Whether empty.
       bool empty () const YY_NOEXCEPT;
 
@@ -2336,7 +3163,7 @@ switch (yytype)
       void move (basic_symbol& s);
 
       /// The semantic value.
-      semantic_type value;
+      value_type value;
 
       /// The location.
       location_type location;
@@ -2349,112 +3176,127 @@ switch (yytype)
     };
 
     /// Type access provider for token (enum) based symbols.
-    struct by_type
+    struct by_kind
     {
+      /// The symbol kind as needed by the constructor.
+      typedef token_kind_type kind_type;
+
       /// Default constructor.
-      by_type ();
+      by_kind () YY_NOEXCEPT;
 
 #if 201103L <= YY_CPLUSPLUS
       /// Move constructor.
-      by_type (by_type&& that);
+      by_kind (by_kind&& that) YY_NOEXCEPT;
 #endif
 
       /// Copy constructor.
-      by_type (const by_type& that);
-
-      /// The symbol type as needed by the constructor.
-      typedef token_type kind_type;
+      by_kind (const by_kind& that) YY_NOEXCEPT;
 
       /// Constructor from (external) token numbers.
-      by_type (kind_type t);
+      by_kind (kind_type t) YY_NOEXCEPT;
+
+
 
       /// Record that this symbol is empty.
-      void clear ();
+      void clear () YY_NOEXCEPT;
 
-      /// Steal the symbol type from \a that.
-      void move (by_type& that);
+      /// Steal the symbol kind from \a that.
+      void move (by_kind& that);
 
       /// The (internal) type number (corresponding to \a type).
       /// \a empty when empty.
-      symbol_number_type type_get () const YY_NOEXCEPT;
+      symbol_kind_type kind () const YY_NOEXCEPT;
 
-      /// The token.
-      token_type token () const YY_NOEXCEPT;
+      /// Backward compatibility (Bison 3.6).
+      symbol_kind_type type_get () const YY_NOEXCEPT;
 
-      /// The symbol type.
-      /// \a empty_symbol when empty.
-      /// An int, not token_number_type, to be able to store empty_symbol.
-      int type;
+      /// The symbol kind.
+      /// \a S_YYEMPTY when empty.
+      symbol_kind_type kind_;
     };
 
+    /// Backward compatibility for a private implementation detail (Bison 3.6).
+    typedef by_kind by_type;
+
     /// "External" symbols: returned by the scanner.
-    struct symbol_type : basic_symbol<by_type>
+    struct symbol_type : basic_symbol<by_kind>
     {
       /// Superclass.
-      typedef basic_symbol<by_type> super_type;
+      typedef basic_symbol<by_kind> super_type;
 
       /// Empty symbol.
-      symbol_type () {}
+      symbol_type () YY_NOEXCEPT {}
 
       /// Constructor for valueless symbols, and symbols from each type.
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, location_type l)
-        : super_type(token_type (tok), std::move (l))
-      {
-        YYASSERT (tok == token::END_OF_FILE || tok == token::comment || tok == token::psname || tok == token::encodingreference || tok == token::integerUnicodeLabel || tok == 273 || tok == 274 || tok == token::tstring || tok == 276 || tok == token::objectsetreference || tok == token::valuesetfieldreference || tok == token::objectfieldreference || tok == token::objectsetfieldreference || tok == token::ABSENT || tok == token::ABSTRACT_SYNTAX || tok == token::ALL || tok == token::ANY || tok == token::APPLICATION || tok == token::ASN_NULL || tok == token::AUTOMATIC || tok == token::BEGIN || tok == token::BIT || tok == token::BMPString || tok == token::BOOLEAN || tok == token::BY || tok == token::CHARACTER || tok == token::CHOICE || tok == token::CLASS || tok == token::COMPONENT || tok == token::COMPONENTS || tok == token::CONSTRAINED || tok == token::CONTAINING || tok == token::DATE || tok == token::DATE_TIME || tok == token::DEFAULT || tok == token::DEFINITIONS || tok == token::DURATION || tok == token::EMBEDDED || tok == token::ENCODED || tok == token::ENCODING_CONTROL || tok == token::END || tok == token::ENUMERATED || tok == token::EXCEPT || tok == token::EXPLICIT || tok == token::EXPORTS || tok == token::EXTENSIBILITY || tok == token::EXTERNAL || tok == token::FALSE || tok == token::FROM || tok == token::GeneralizedTime || tok == token::GeneralString || tok == token::GraphicString || tok == token::IA5String || tok == token::IDENTIFIER || tok == token::IMPLICIT || tok == token::IMPLIED || tok == token::IMPORTS || tok == token::INCLUDES || tok == token::INSTANCE || tok == token::INSTRUCTIONS || tok == token::INTEGER || tok == token::INTERSECTION || tok == token::ISO646String || tok == token::MAX || tok == token::MIN || tok == token::MINUS_INFINITY || tok == token::NOT_A_NUMBER || tok == token::NumericString || tok == token::OBJECT || tok == token::ObjectDescriptor || tok == token::OCTET || tok == token::OF || tok == token::OID_IRI || tok == token::OPTIONAL || tok == token::PATTERN || tok == token::PDV || tok == token::PLUS_INFINITY || tok == token::PRESENT || tok == token::PrintableString || tok == token::PRIVATE || tok == token::REAL || tok == token::RELATIVE_OID || tok == token::RELATIVE_OID_IRI || tok == token::SEQUENCE || tok == token::SET || tok == token::SETTINGS || tok == token::SIZE || tok == token::STRING || tok == token::SYNTAX || tok == token::T61String || tok == token::TAGS || tok == token::TeletexString || tok == token::TIME || tok == token::TIME_OF_DAY || tok == token::TRUE || tok == token::TYPE_IDENTIFIER || tok == token::UNION || tok == token::UNIQUE || tok == token::UNIVERSAL || tok == token::UniversalString || tok == token::UTCTime || tok == token::UTF8String || tok == token::VideotexString || tok == token::VisibleString || tok == token::WITH || tok == token::DEFINED_AS || tok == token::ELIPSIS || tok == token::RANGE || tok == token::OPEN_BRACE || tok == token::CLOSE_BRACE || tok == token::OPEN_PARENTHESIS || tok == token::CLOSE_PARENTHESIS || tok == token::OPEN_SQUARE_BRACKET || tok == token::CLOSE_SQUARE_BRACKET || tok == token::LESS_THAN || tok == token::GREATER_THAN || tok == token::EXCLAMATION_MARK || tok == token::QUOTATION_MARK || tok == token::AMPERSAND || tok == token::APOSTROPHE || tok == token::ASTERISK || tok == token::COMMA || tok == token::FULL_STOP || tok == token::HYPHEN_MINUS || tok == token::SOLIDUS || tok == token::COLON || tok == token::SEMICOLON || tok == token::EQUALS_SIGN || tok == token::AT || tok == token::VERTICAL_LINE || tok == token::ACCENT || tok == token::PLUS || tok == token::STAR || tok == token::GENERIC_INTEGER || tok == token::xmlasn1typename);
-      }
+        : super_type (token_kind_type (tok), std::move (l))
 #else
       symbol_type (int tok, const location_type& l)
-        : super_type(token_type (tok), l)
+        : super_type (token_kind_type (tok), l)
+#endif
       {
-        YYASSERT (tok == token::END_OF_FILE || tok == token::comment || tok == token::psname || tok == token::encodingreference || tok == token::integerUnicodeLabel || tok == 273 || tok == 274 || tok == token::tstring || tok == 276 || tok == token::objectsetreference || tok == token::valuesetfieldreference || tok == token::objectfieldreference || tok == token::objectsetfieldreference || tok == token::ABSENT || tok == token::ABSTRACT_SYNTAX || tok == token::ALL || tok == token::ANY || tok == token::APPLICATION || tok == token::ASN_NULL || tok == token::AUTOMATIC || tok == token::BEGIN || tok == token::BIT || tok == token::BMPString || tok == token::BOOLEAN || tok == token::BY || tok == token::CHARACTER || tok == token::CHOICE || tok == token::CLASS || tok == token::COMPONENT || tok == token::COMPONENTS || tok == token::CONSTRAINED || tok == token::CONTAINING || tok == token::DATE || tok == token::DATE_TIME || tok == token::DEFAULT || tok == token::DEFINITIONS || tok == token::DURATION || tok == token::EMBEDDED || tok == token::ENCODED || tok == token::ENCODING_CONTROL || tok == token::END || tok == token::ENUMERATED || tok == token::EXCEPT || tok == token::EXPLICIT || tok == token::EXPORTS || tok == token::EXTENSIBILITY || tok == token::EXTERNAL || tok == token::FALSE || tok == token::FROM || tok == token::GeneralizedTime || tok == token::GeneralString || tok == token::GraphicString || tok == token::IA5String || tok == token::IDENTIFIER || tok == token::IMPLICIT || tok == token::IMPLIED || tok == token::IMPORTS || tok == token::INCLUDES || tok == token::INSTANCE || tok == token::INSTRUCTIONS || tok == token::INTEGER || tok == token::INTERSECTION || tok == token::ISO646String || tok == token::MAX || tok == token::MIN || tok == token::MINUS_INFINITY || tok == token::NOT_A_NUMBER || tok == token::NumericString || tok == token::OBJECT || tok == token::ObjectDescriptor || tok == token::OCTET || tok == token::OF || tok == token::OID_IRI || tok == token::OPTIONAL || tok == token::PATTERN || tok == token::PDV || tok == token::PLUS_INFINITY || tok == token::PRESENT || tok == token::PrintableString || tok == token::PRIVATE || tok == token::REAL || tok == token::RELATIVE_OID || tok == token::RELATIVE_OID_IRI || tok == token::SEQUENCE || tok == token::SET || tok == token::SETTINGS || tok == token::SIZE || tok == token::STRING || tok == token::SYNTAX || tok == token::T61String || tok == token::TAGS || tok == token::TeletexString || tok == token::TIME || tok == token::TIME_OF_DAY || tok == token::TRUE || tok == token::TYPE_IDENTIFIER || tok == token::UNION || tok == token::UNIQUE || tok == token::UNIVERSAL || tok == token::UniversalString || tok == token::UTCTime || tok == token::UTF8String || tok == token::VideotexString || tok == token::VisibleString || tok == token::WITH || tok == token::DEFINED_AS || tok == token::ELIPSIS || tok == token::RANGE || tok == token::OPEN_BRACE || tok == token::CLOSE_BRACE || tok == token::OPEN_PARENTHESIS || tok == token::CLOSE_PARENTHESIS || tok == token::OPEN_SQUARE_BRACKET || tok == token::CLOSE_SQUARE_BRACKET || tok == token::LESS_THAN || tok == token::GREATER_THAN || tok == token::EXCLAMATION_MARK || tok == token::QUOTATION_MARK || tok == token::AMPERSAND || tok == token::APOSTROPHE || tok == token::ASTERISK || tok == token::COMMA || tok == token::FULL_STOP || tok == token::HYPHEN_MINUS || tok == token::SOLIDUS || tok == token::COLON || tok == token::SEMICOLON || tok == token::EQUALS_SIGN || tok == token::AT || tok == token::VERTICAL_LINE || tok == token::ACCENT || tok == token::PLUS || tok == token::STAR || tok == token::GENERIC_INTEGER || tok == token::xmlasn1typename);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT (tok == token::END_OF_FILE
+                   || (token::YYerror <= tok && tok <= token::comment)
+                   || (token::psname <= tok && tok <= 276)
+                   || tok == token::objectsetreference
+                   || (token::valuesetfieldreference <= tok && tok <= token::STAR)
+                   || (token::GENERIC_INTEGER <= tok && tok <= token::xmlasn1typename));
 #endif
+      }
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, double v, location_type l)
-        : super_type(token_type (tok), std::move (v), std::move (l))
-      {
-        YYASSERT (tok == token::realnumber);
-      }
+        : super_type (token_kind_type (tok), std::move (v), std::move (l))
 #else
       symbol_type (int tok, const double& v, const location_type& l)
-        : super_type(token_type (tok), v, l)
+        : super_type (token_kind_type (tok), v, l)
+#endif
       {
-        YYASSERT (tok == token::realnumber);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT (tok == token::realnumber);
 #endif
+      }
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, int64_t v, location_type l)
-        : super_type(token_type (tok), std::move (v), std::move (l))
-      {
-        YYASSERT (tok == token::number || tok == token::negativenumber);
-      }
+        : super_type (token_kind_type (tok), std::move (v), std::move (l))
 #else
       symbol_type (int tok, const int64_t& v, const location_type& l)
-        : super_type(token_type (tok), v, l)
+        : super_type (token_kind_type (tok), v, l)
+#endif
       {
-        YYASSERT (tok == token::number || tok == token::negativenumber);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT ((token::number <= tok && tok <= token::negativenumber));
 #endif
+      }
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, std::string v, location_type l)
-        : super_type(token_type (tok), std::move (v), std::move (l))
-      {
-        YYASSERT (tok == token::bstring || tok == token::xmlbstring || tok == token::hstring || tok == token::xmlhstring || tok == token::cstring || tok == token::xmlcstring || tok == token::simplestring || tok == token::xmltstring || tok == token::objectreference || tok == token::typefieldreference || tok == token::valuefieldreference || tok == token::GENERIC_IDENTIFIER_UPPERCASE || tok == token::GENERIC_IDENTIFIER_LOWERCASE);
-      }
+        : super_type (token_kind_type (tok), std::move (v), std::move (l))
 #else
       symbol_type (int tok, const std::string& v, const location_type& l)
-        : super_type(token_type (tok), v, l)
+        : super_type (token_kind_type (tok), v, l)
+#endif
       {
-        YYASSERT (tok == token::bstring || tok == token::xmlbstring || tok == token::hstring || tok == token::xmlhstring || tok == token::cstring || tok == token::xmlcstring || tok == token::simplestring || tok == token::xmltstring || tok == token::objectreference || tok == token::typefieldreference || tok == token::valuefieldreference || tok == token::GENERIC_IDENTIFIER_UPPERCASE || tok == token::GENERIC_IDENTIFIER_LOWERCASE);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT ((token::bstring <= tok && tok <= token::xmltstring)
+                   || tok == token::objectreference
+                   || (token::typefieldreference <= tok && tok <= token::valuefieldreference)
+                   || (token::GENERIC_IDENTIFIER_UPPERCASE <= tok && tok <= token::GENERIC_IDENTIFIER_LOWERCASE));
 #endif
+      }
     };
 
     /// Build a parser object.
     asn1_parser (Context& context__yyarg);
     virtual ~asn1_parser ();
 
+#if 201103L <= YY_CPLUSPLUS
+    /// Non copyable.
+    asn1_parser (const asn1_parser&) = delete;
+    /// Non copyable.
+    asn1_parser& operator= (const asn1_parser&) = delete;
+#endif
+
     /// Parse.  An alias for parse ().
     /// \returns  0 iff parsing succeeded.
     int operator() ();
@@ -2485,7 +3327,11 @@ switch (yytype)
     /// Report a syntax error.
     void error (const syntax_error& err);
 
-    // Implementation of make_symbol for each symbol type.
+    /// The user-facing name of the symbol whose (internal) number is
+    /// YYSYMBOL.  No bounds checking.
+    static std::string symbol_name (symbol_kind_type yysymbol);
+
+    // Implementation of make_symbol for each token kind.
 #if 201103L <= YY_CPLUSPLUS
       static
       symbol_type
@@ -2501,6 +3347,36 @@ switch (yytype)
         return symbol_type (token::END_OF_FILE, l);
       }
 #endif
+#if 201103L <= YY_CPLUSPLUS
+      static
+      symbol_type
+      make_YYerror (location_type l)
+      {
+        return symbol_type (token::YYerror, std::move (l));
+      }
+#else
+      static
+      symbol_type
+      make_YYerror (const location_type& l)
+      {
+        return symbol_type (token::YYerror, l);
+      }
+#endif
+#if 201103L <= YY_CPLUSPLUS
+      static
+      symbol_type
+      make_YYUNDEF (location_type l)
+      {
+        return symbol_type (token::YYUNDEF, std::move (l));
+      }
+#else
+      static
+      symbol_type
+      make_YYUNDEF (const location_type& l)
+      {
+        return symbol_type (token::YYUNDEF, l);
+      }
+#endif
 #if 201103L <= YY_CPLUSPLUS
       static
       symbol_type
@@ -4708,93 +5584,119 @@ switch (yytype)
 #endif
 
 
+    class context
+    {
+    public:
+      context (const asn1_parser& yyparser, const symbol_type& yyla);
+      const symbol_type& lookahead () const YY_NOEXCEPT { return yyla_; }
+      symbol_kind_type token () const YY_NOEXCEPT { return yyla_.kind (); }
+      const location_type& location () const YY_NOEXCEPT { return yyla_.location; }
+
+      /// Put in YYARG at most YYARGN of the expected tokens, and return the
+      /// number of tokens stored in YYARG.  If YYARG is null, return the
+      /// number of expected tokens (guaranteed to be less than YYNTOKENS).
+      int expected_tokens (symbol_kind_type yyarg[], int yyargn) const;
+
+    private:
+      const asn1_parser& yyparser_;
+      const symbol_type& yyla_;
+    };
+
   private:
-    /// This class is not copyable.
+#if YY_CPLUSPLUS < 201103L
+    /// Non copyable.
     asn1_parser (const asn1_parser&);
+    /// Non copyable.
     asn1_parser& operator= (const asn1_parser&);
+#endif
 
-    /// State numbers.
-    typedef int state_type;
 
-    /// Generate an error message.
-    /// \param yystate   the state where the error occurred.
-    /// \param yyla      the lookahead token.
-    virtual std::string yysyntax_error_ (state_type yystate,
-                                         const symbol_type& yyla) const;
+    /// Stored state numbers (used for stacks).
+    typedef short state_type;
 
+    /// The arguments of the error message.
+    int yy_syntax_error_arguments_ (const context& yyctx,
+                                    symbol_kind_type yyarg[], int yyargn) const;
+
+    /// Generate an error message.
+    /// \param yyctx     the context in which the error occurred.
+    virtual std::string yysyntax_error_ (const context& yyctx) const;
     /// Compute post-reduction state.
     /// \param yystate   the current state
     /// \param yysym     the nonterminal to push on the stack
-    state_type yy_lr_goto_state_ (state_type yystate, int yysym);
+    static state_type yy_lr_goto_state_ (state_type yystate, int yysym);
 
     /// Whether the given \c yypact_ value indicates a defaulted state.
     /// \param yyvalue   the value to check
-    static bool yy_pact_value_is_default_ (int yyvalue);
+    static bool yy_pact_value_is_default_ (int yyvalue) YY_NOEXCEPT;
 
     /// Whether the given \c yytable_ value indicates a syntax error.
     /// \param yyvalue   the value to check
-    static bool yy_table_value_is_error_ (int yyvalue);
+    static bool yy_table_value_is_error_ (int yyvalue) YY_NOEXCEPT;
 
     static const short yypact_ninf_;
     static const short yytable_ninf_;
 
-    /// Convert a scanner token number \a t to a symbol number.
-    static token_number_type yytranslate_ (token_type t);
+    /// Convert a scanner token kind \a t to a symbol kind.
+    /// In theory \a t should be a token_kind_type, but character literals
+    /// are valid, yet not members of the token_kind_type enum.
+    static symbol_kind_type yytranslate_ (int t) YY_NOEXCEPT;
 
-    // Tables.
-  // YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
-  // STATE-NUM.
-  static const short yypact_[];
+    /// Convert the symbol name \a n to a form suitable for a diagnostic.
+    static std::string yytnamerr_ (const char *yystr);
 
-  // YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
-  // Performed when YYTABLE does not specify something else to do.  Zero
-  // means the default is an error.
-  static const unsigned short yydefact_[];
+    /// For a symbol, its name in clear.
+    static const char* const yytname_[];
 
-  // YYPGOTO[NTERM-NUM].
-  static const short yypgoto_[];
 
-  // YYDEFGOTO[NTERM-NUM].
-  static const short yydefgoto_[];
+    // Tables.
+    // YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
+    // STATE-NUM.
+    static const short yypact_[];
 
-  // YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
-  // positive, shift that token.  If negative, reduce the rule whose
-  // number is the opposite.  If YYTABLE_NINF, syntax error.
-  static const short yytable_[];
+    // YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
+    // Performed when YYTABLE does not specify something else to do.  Zero
+    // means the default is an error.
+    static const short yydefact_[];
 
-  static const short yycheck_[];
+    // YYPGOTO[NTERM-NUM].
+    static const short yypgoto_[];
 
-  // YYSTOS[STATE-NUM] -- The (internal number of the) accessing
-  // symbol of state STATE-NUM.
-  static const unsigned short yystos_[];
+    // YYDEFGOTO[NTERM-NUM].
+    static const short yydefgoto_[];
 
-  // YYR1[YYN] -- Symbol number of symbol that rule YYN derives.
-  static const unsigned short yyr1_[];
+    // YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
+    // positive, shift that token.  If negative, reduce the rule whose
+    // number is the opposite.  If YYTABLE_NINF, syntax error.
+    static const short yytable_[];
 
-  // YYR2[YYN] -- Number of symbols on the right hand side of rule YYN.
-  static const unsigned char yyr2_[];
+    static const short yycheck_[];
 
+    // YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
+    // state STATE-NUM.
+    static const short yystos_[];
 
-    /// Convert the symbol name \a n to a form suitable for a diagnostic.
-    static std::string yytnamerr_ (const char *n);
+    // YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.
+    static const short yyr1_[];
+
+    // YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.
+    static const signed char yyr2_[];
 
 
-    /// For a symbol, its name in clear.
-    static const char* const yytname_[];
 #if YYDEBUG
-  // YYRLINE[YYN] -- Source line where rule number YYN was defined.
-  static const unsigned short yyrline_[];
+    // YYRLINE[YYN] -- Source line where rule number YYN was defined.
+    static const short yyrline_[];
     /// Report on the debug stream that the rule \a r is going to be reduced.
-    virtual void yy_reduce_print_ (int r);
+    virtual void yy_reduce_print_ (int r) const;
     /// Print the state stack on the debug stream.
-    virtual void yystack_print_ ();
+    virtual void yy_stack_print_ () const;
 
     /// Debugging level.
     int yydebug_;
     /// Debug stream.
     std::ostream* yycdebug_;
 
-    /// \brief Display a symbol type, value and location.
+    /// \brief Display a symbol kind, value and location.
     /// \param yyo    The output stream.
     /// \param yysym  The symbol.
     template <typename Base>
@@ -4815,7 +5717,7 @@ switch (yytype)
       /// Default constructor.
       by_state () YY_NOEXCEPT;
 
-      /// The symbol type as needed by the constructor.
+      /// The symbol kind as needed by the constructor.
       typedef state_type kind_type;
 
       /// Constructor.
@@ -4827,15 +5729,16 @@ switch (yytype)
       /// Record that this symbol is empty.
       void clear () YY_NOEXCEPT;
 
-      /// Steal the symbol type from \a that.
+      /// Steal the symbol kind from \a that.
       void move (by_state& that);
 
-      /// The (internal) type number (corresponding to \a state).
-      /// \a empty_symbol when empty.
-      symbol_number_type type_get () const YY_NOEXCEPT;
+      /// The symbol kind (corresponding to \a state).
+      /// \a symbol_kind::S_YYEMPTY when empty.
+      symbol_kind_type kind () const YY_NOEXCEPT;
 
       /// The state number used to denote an empty symbol.
-      enum { empty_state = -1 };
+      /// We use the initial state, as it does not have a value.
+      enum { empty_state = 0 };
 
       /// The state.
       /// \a empty when empty.
@@ -4857,6 +5760,10 @@ switch (yytype)
       /// Assignment, needed by push_back by some old implementations.
       /// Moves the contents of that.
       stack_symbol_type& operator= (stack_symbol_type& that);
+
+      /// Assignment, needed by push_back by other implementations.
+      /// Needed by some other old implementations.
+      stack_symbol_type& operator= (const stack_symbol_type& that);
 #endif
     };
 
@@ -4866,48 +5773,38 @@ switch (yytype)
     {
     public:
       // Hide our reversed order.
-      typedef typename S::reverse_iterator iterator;
-      typedef typename S::const_reverse_iterator const_iterator;
+      typedef typename S::iterator iterator;
+      typedef typename S::const_iterator const_iterator;
       typedef typename S::size_type size_type;
+      typedef typename std::ptrdiff_t index_type;
 
-      stack (size_type n = 200)
+      stack (size_type n = 200) YY_NOEXCEPT
         : seq_ (n)
       {}
 
-      /// Random access.
-      ///
-      /// Index 0 returns the topmost element.
-      T&
-      operator[] (size_type i)
-      {
-        return seq_[size () - 1 - i];
-      }
-
-      /// Random access.
-      ///
-      /// Index 0 returns the topmost element.
-      T&
-      operator[] (int i)
-      {
-        return operator[] (size_type (i));
-      }
+#if 201103L <= YY_CPLUSPLUS
+      /// Non copyable.
+      stack (const stack&) = delete;
+      /// Non copyable.
+      stack& operator= (const stack&) = delete;
+#endif
 
       /// Random access.
       ///
       /// Index 0 returns the topmost element.
       const T&
-      operator[] (size_type i) const
+      operator[] (index_type i) const
       {
-        return seq_[size () - 1 - i];
+        return seq_[size_type (size () - 1 - i)];
       }
 
       /// Random access.
       ///
       /// Index 0 returns the topmost element.
-      const T&
-      operator[] (int i) const
+      T&
+      operator[] (index_type i)
       {
-        return operator[] (size_type (i));
+        return seq_[size_type (size () - 1 - i)];
       }
 
       /// Steal the contents of \a t.
@@ -4922,7 +5819,7 @@ switch (yytype)
 
       /// Pop elements from the stack.
       void
-      pop (int n = 1) YY_NOEXCEPT
+      pop (std::ptrdiff_t n = 1) YY_NOEXCEPT
       {
         for (; 0 < n; --n)
           seq_.pop_back ();
@@ -4936,49 +5833,53 @@ switch (yytype)
       }
 
       /// Number of elements on the stack.
-      size_type
+      index_type
       size () const YY_NOEXCEPT
       {
-        return seq_.size ();
+        return index_type (seq_.size ());
       }
 
       /// Iterator on top of the stack (going downwards).
       const_iterator
       begin () const YY_NOEXCEPT
       {
-        return seq_.rbegin ();
+        return seq_.begin ();
       }
 
       /// Bottom of the stack.
       const_iterator
       end () const YY_NOEXCEPT
       {
-        return seq_.rend ();
+        return seq_.end ();
       }
 
       /// Present a slice of the top of a stack.
       class slice
       {
       public:
-        slice (const stack& stack, int range)
+        slice (const stack& stack, index_type range) YY_NOEXCEPT
           : stack_ (stack)
           , range_ (range)
         {}
 
         const T&
-        operator[] (int i) const
+        operator[] (index_type i) const
         {
           return stack_[range_ - i];
         }
 
       private:
         const stack& stack_;
-        int range_;
+        index_type range_;
       };
 
     private:
+#if YY_CPLUSPLUS < 201103L
+      /// Non copyable.
       stack (const stack&);
+      /// Non copyable.
       stack& operator= (const stack&);
+#endif
       /// The wrapped container.
       S seq_;
     };
@@ -5006,32 +5907,29 @@ switch (yytype)
     void yypush_ (const char* m, state_type s, YY_MOVE_REF (symbol_type) sym);
 
     /// Pop \a n symbols from the stack.
-    void yypop_ (int n = 1);
+    void yypop_ (int n = 1) YY_NOEXCEPT;
 
     /// Constants.
     enum
     {
-      yyeof_ = 0,
       yylast_ = 5042,     ///< Last index in yytable_.
       yynnts_ = 225,  ///< Number of nonterminal symbols.
-      yyfinal_ = 6, ///< Termination state number.
-      yyterror_ = 1,
-      yyerrcode_ = 256,
-      yyntokens_ = 153  ///< Number of tokens.
+      yyfinal_ = 6 ///< Termination state number.
     };
 
 
     // User arguments.
     Context& context_;
+
   };
 
-  asn1_parser::token_number_type
-  asn1_parser::yytranslate_ (token_type t)
+  asn1_parser::symbol_kind_type
+  asn1_parser::yytranslate_ (int t) YY_NOEXCEPT
   {
     // YYTRANSLATE[TOKEN-NUM] -- Symbol number corresponding to
     // TOKEN-NUM as returned by yylex.
     static
-    const token_number_type
+    const unsigned char
     translate_table[] =
     {
        0,     2,     2,     2,     2,     2,     2,     2,     2,     2,
@@ -5076,689 +5974,348 @@ switch (yytype)
      135,   136,   137,   138,   139,   140,   141,   142,   143,   144,
      145,   146,   147,   148,   149,   150,   151,   152
     };
-    const unsigned user_token_number_max_ = 407;
-    const token_number_type undef_token_ = 2;
+    // Last valid token kind.
+    const int code_max = 407;
 
-    if (static_cast<int> (t) <= yyeof_)
-      return yyeof_;
-    else if (static_cast<unsigned> (t) <= user_token_number_max_)
-      return translate_table[t];
+    if (t <= 0)
+      return symbol_kind::S_YYEOF;
+    else if (t <= code_max)
+      return static_cast <symbol_kind_type> (translate_table[t]);
     else
-      return undef_token_;
+      return symbol_kind::S_YYUNDEF;
   }
 
   // basic_symbol.
-#if 201103L <= YY_CPLUSPLUS
   template <typename Base>
-  asn1_parser::basic_symbol<Base>::basic_symbol (basic_symbol&& that)
-    : Base (std::move (that))
+  asn1_parser::basic_symbol<Base>::basic_symbol (const basic_symbol& that)
+    : Base (that)
     , value ()
-    , location (std::move (that.location))
+    , location (that.location)
   {
-    switch (this->type_get ())
+    switch (this->kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
-        value.move< Assignment > (std::move (that.value));
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
+        value.copy< Assignment > (YY_MOVE (that.value));
         break;
 
-      case 283: // BitStringType
-        value.move< BitStringType > (std::move (that.value));
+      case symbol_kind::S_BitStringType: // BitStringType
+        value.copy< BitStringType > (YY_MOVE (that.value));
         break;
 
-      case 272: // BooleanType
-        value.move< BooleanType > (std::move (that.value));
+      case symbol_kind::S_BooleanType: // BooleanType
+        value.copy< BooleanType > (YY_MOVE (that.value));
         break;
 
-      case 273: // BooleanValue
-        value.move< BooleanValue > (std::move (that.value));
+      case symbol_kind::S_BooleanValue: // BooleanValue
+        value.copy< BooleanValue > (YY_MOVE (that.value));
         break;
 
-      case 264: // BuiltinType
-        value.move< BuiltinType > (std::move (that.value));
+      case symbol_kind::S_BuiltinType: // BuiltinType
+        value.copy< BuiltinType > (YY_MOVE (that.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
-        value.move< CharacterStringType > (std::move (that.value));
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
+        value.copy< CharacterStringType > (YY_MOVE (that.value));
         break;
 
-      case 295: // ChoiceType
-        value.move< ChoiceType > (std::move (that.value));
+      case symbol_kind::S_ChoiceType: // ChoiceType
+        value.copy< ChoiceType > (YY_MOVE (that.value));
         break;
 
-      case 305: // Class
-        value.move< Class > (std::move (that.value));
+      case symbol_kind::S_Class: // Class
+        value.copy< Class > (YY_MOVE (that.value));
         break;
 
-      case 289: // ComponentTypeLists
-        value.move< Collection > (std::move (that.value));
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
+        value.copy< Collection > (YY_MOVE (that.value));
         break;
 
-      case 291: // ComponentType
-        value.move< ComponentType > (std::move (that.value));
+      case symbol_kind::S_ComponentType: // ComponentType
+        value.copy< ComponentType > (YY_MOVE (that.value));
         break;
 
-      case 290: // ComponentTypeList
-        value.move< ComponentTypeList > (std::move (that.value));
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
+        value.copy< ComponentTypeList > (YY_MOVE (that.value));
         break;
 
-      case 326: // DateTimeType
-        value.move< DateTimeType > (std::move (that.value));
+      case symbol_kind::S_DateTimeType: // DateTimeType
+        value.copy< DateTimeType > (YY_MOVE (that.value));
         break;
 
-      case 324: // DateType
-        value.move< DateType > (std::move (that.value));
+      case symbol_kind::S_DateType: // DateType
+        value.copy< DateType > (YY_MOVE (that.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
-        value.move< DefinedType > (std::move (that.value));
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
+        value.copy< DefinedType > (YY_MOVE (that.value));
         break;
 
-      case 253: // DefinedValue
-        value.move< DefinedValue > (std::move (that.value));
+      case symbol_kind::S_DefinedValue: // DefinedValue
+        value.copy< DefinedValue > (YY_MOVE (that.value));
         break;
 
-      case 327: // DurationType
-        value.move< DurationType > (std::move (that.value));
+      case symbol_kind::S_DurationType: // DurationType
+        value.copy< DurationType > (YY_MOVE (that.value));
         break;
 
-      case 320: // EmbeddedPDVType
-        value.move< EmbeddedPDVType > (std::move (that.value));
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
+        value.copy< EmbeddedPDVType > (YY_MOVE (that.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
-        value.move< EnumeratedType > (std::move (that.value));
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
+        value.copy< EnumeratedType > (YY_MOVE (that.value));
         break;
 
-      case 281: // EnumerationItem
-        value.move< EnumerationValue > (std::move (that.value));
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
+        value.copy< EnumerationValue > (YY_MOVE (that.value));
         break;
 
-      case 321: // ExternalType
-        value.move< ExternalType > (std::move (that.value));
+      case symbol_kind::S_ExternalType: // ExternalType
+        value.copy< ExternalType > (YY_MOVE (that.value));
         break;
 
-      case 314: // IRIType
-        value.move< IRIType > (std::move (that.value));
+      case symbol_kind::S_IRIType: // IRIType
+        value.copy< IRIType > (YY_MOVE (that.value));
         break;
 
-      case 245: // SymbolsFromModule
-        value.move< Import > (std::move (that.value));
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
+        value.copy< Import > (YY_MOVE (that.value));
         break;
 
-      case 215: // InstanceOfType
-        value.move< InstanceOfType > (std::move (that.value));
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
+        value.copy< InstanceOfType > (YY_MOVE (that.value));
         break;
 
-      case 274: // IntegerType
-        value.move< IntegerType > (std::move (that.value));
+      case symbol_kind::S_IntegerType: // IntegerType
+        value.copy< IntegerType > (YY_MOVE (that.value));
         break;
 
-      case 239: // ModuleBody
-        value.move< Module > (std::move (that.value));
+      case symbol_kind::S_ModuleBody: // ModuleBody
+        value.copy< Module > (YY_MOVE (that.value));
         break;
 
-      case 276: // NamedNumber
-        value.move< NamedNumber > (std::move (that.value));
+      case symbol_kind::S_NamedNumber: // NamedNumber
+        value.copy< NamedNumber > (YY_MOVE (that.value));
         break;
 
-      case 265: // NamedType
-        value.move< NamedType > (std::move (that.value));
+      case symbol_kind::S_NamedType: // NamedType
+        value.copy< NamedType > (YY_MOVE (that.value));
         break;
 
-      case 287: // NullType
-        value.move< NullType > (std::move (that.value));
+      case symbol_kind::S_NullType: // NullType
+        value.copy< NullType > (YY_MOVE (that.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
-        value.move< ObjectClassAssignment > (std::move (that.value));
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
+        value.copy< ObjectClassAssignment > (YY_MOVE (that.value));
         break;
 
-      case 202: // ObjectClassFieldType
-        value.move< ObjectClassFieldType > (std::move (that.value));
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
+        value.copy< ObjectClassFieldType > (YY_MOVE (that.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
-        value.move< ObjectIdComponentValue > (std::move (that.value));
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
+        value.copy< ObjectIdComponentValue > (YY_MOVE (that.value));
         break;
 
-      case 306: // ObjectIdentifierType
-        value.move< ObjectIdentifierType > (std::move (that.value));
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
+        value.copy< ObjectIdentifierType > (YY_MOVE (that.value));
         break;
 
-      case 286: // OctetStringType
-        value.move< OctetStringType > (std::move (that.value));
+      case symbol_kind::S_OctetStringType: // OctetStringType
+        value.copy< OctetStringType > (YY_MOVE (that.value));
         break;
 
-      case 210: // Parameter
-        value.move< Parameter > (std::move (that.value));
+      case symbol_kind::S_Parameter: // Parameter
+        value.copy< Parameter > (YY_MOVE (that.value));
         break;
 
-      case 300: // PrefixedType
-        value.move< PrefixedType > (std::move (that.value));
+      case symbol_kind::S_PrefixedType: // PrefixedType
+        value.copy< PrefixedType > (YY_MOVE (that.value));
         break;
 
-      case 282: // RealType
-        value.move< RealType > (std::move (that.value));
+      case symbol_kind::S_RealType: // RealType
+        value.copy< RealType > (YY_MOVE (that.value));
         break;
 
-      case 319: // RelativeIRIType
-        value.move< RelativeIRIType > (std::move (that.value));
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
+        value.copy< RelativeIRIType > (YY_MOVE (that.value));
         break;
 
-      case 313: // RelativeOIDType
-        value.move< RelativeOIDType > (std::move (that.value));
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
+        value.copy< RelativeOIDType > (YY_MOVE (that.value));
         break;
 
-      case 292: // SequenceOfType
-        value.move< SequenceOfType > (std::move (that.value));
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
+        value.copy< SequenceOfType > (YY_MOVE (that.value));
         break;
 
-      case 288: // SequenceType
-        value.move< SequenceType > (std::move (that.value));
+      case symbol_kind::S_SequenceType: // SequenceType
+        value.copy< SequenceType > (YY_MOVE (that.value));
         break;
 
-      case 294: // SetOfType
-        value.move< SetOfType > (std::move (that.value));
+      case symbol_kind::S_SetOfType: // SetOfType
+        value.copy< SetOfType > (YY_MOVE (that.value));
         break;
 
-      case 293: // SetType
-        value.move< SetType > (std::move (that.value));
+      case symbol_kind::S_SetType: // SetType
+        value.copy< SetType > (YY_MOVE (that.value));
         break;
 
-      case 302: // Tag
-        value.move< Tag > (std::move (that.value));
+      case symbol_kind::S_Tag: // Tag
+        value.copy< Tag > (YY_MOVE (that.value));
         break;
 
-      case 301: // TaggedType
-        value.move< TaggedType > (std::move (that.value));
+      case symbol_kind::S_TaggedType: // TaggedType
+        value.copy< TaggedType > (YY_MOVE (that.value));
         break;
 
-      case 237: // TagDefault
-        value.move< TaggingMode > (std::move (that.value));
+      case symbol_kind::S_TagDefault: // TagDefault
+        value.copy< TaggingMode > (YY_MOVE (that.value));
         break;
 
-      case 325: // TimeOfDayType
-        value.move< TimeOfDayType > (std::move (that.value));
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
+        value.copy< TimeOfDayType > (YY_MOVE (that.value));
         break;
 
-      case 322: // TimeType
-        value.move< TimeType > (std::move (that.value));
+      case symbol_kind::S_TimeType: // TimeType
+        value.copy< TimeType > (YY_MOVE (that.value));
         break;
 
-      case 323: // TimeValue
-        value.move< TimeValue > (std::move (that.value));
+      case symbol_kind::S_TimeValue: // TimeValue
+        value.copy< TimeValue > (YY_MOVE (that.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
-        value.move< Type > (std::move (that.value));
-        break;
-
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
-        value.move< Value > (std::move (that.value));
-        break;
-
-      case 6: // realnumber
-        value.move< double > (std::move (that.value));
-        break;
-
-      case 304: // ClassNumber
-        value.move< int > (std::move (that.value));
-        break;
-
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
-        value.move< int64_t > (std::move (that.value));
-        break;
-
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
-        value.move< std::string > (std::move (that.value));
-        break;
-
-      case 250: // AssignmentList
-        value.move< std::vector<Assignment> > (std::move (that.value));
-        break;
-
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
-        value.move< std::vector<ClassField> > (std::move (that.value));
-        break;
-
-      case 240: // Exports
-        value.move< std::vector<Export> > (std::move (that.value));
-        break;
-
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
-        value.move< std::vector<Import> > (std::move (that.value));
-        break;
-
-      case 275: // NamedNumberList
-        value.move< std::vector<NamedNumber> > (std::move (that.value));
-        break;
-
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
-        value.move< std::vector<NamedType> > (std::move (that.value));
-        break;
-
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
-        value.move< std::vector<ObjectIdComponentValue> > (std::move (that.value));
-        break;
-
-      case 208: // ParameterList
-      case 209: // ParameterSeries
-        value.move< std::vector<Parameter> > (std::move (that.value));
-        break;
-
-      case 256: // ActualParameterList
-        value.move< std::vector<Type> > (std::move (that.value));
-        break;
-
-      case 271: // SequenceOfValues
-        value.move< std::vector<Value> > (std::move (that.value));
-        break;
-
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
-        value.move< std::vector<std::string> > (std::move (that.value));
-        break;
-
-      default:
-        break;
-    }
-
-  }
-#endif
-
-  template <typename Base>
-  asn1_parser::basic_symbol<Base>::basic_symbol (const basic_symbol& that)
-    : Base (that)
-    , value ()
-    , location (that.location)
-  {
-    switch (this->type_get ())
-    {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
-        value.copy< Assignment > (YY_MOVE (that.value));
-        break;
-
-      case 283: // BitStringType
-        value.copy< BitStringType > (YY_MOVE (that.value));
-        break;
-
-      case 272: // BooleanType
-        value.copy< BooleanType > (YY_MOVE (that.value));
-        break;
-
-      case 273: // BooleanValue
-        value.copy< BooleanValue > (YY_MOVE (that.value));
-        break;
-
-      case 264: // BuiltinType
-        value.copy< BuiltinType > (YY_MOVE (that.value));
-        break;
-
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
-        value.copy< CharacterStringType > (YY_MOVE (that.value));
-        break;
-
-      case 295: // ChoiceType
-        value.copy< ChoiceType > (YY_MOVE (that.value));
-        break;
-
-      case 305: // Class
-        value.copy< Class > (YY_MOVE (that.value));
-        break;
-
-      case 289: // ComponentTypeLists
-        value.copy< Collection > (YY_MOVE (that.value));
-        break;
-
-      case 291: // ComponentType
-        value.copy< ComponentType > (YY_MOVE (that.value));
-        break;
-
-      case 290: // ComponentTypeList
-        value.copy< ComponentTypeList > (YY_MOVE (that.value));
-        break;
-
-      case 326: // DateTimeType
-        value.copy< DateTimeType > (YY_MOVE (that.value));
-        break;
-
-      case 324: // DateType
-        value.copy< DateType > (YY_MOVE (that.value));
-        break;
-
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
-        value.copy< DefinedType > (YY_MOVE (that.value));
-        break;
-
-      case 253: // DefinedValue
-        value.copy< DefinedValue > (YY_MOVE (that.value));
-        break;
-
-      case 327: // DurationType
-        value.copy< DurationType > (YY_MOVE (that.value));
-        break;
-
-      case 320: // EmbeddedPDVType
-        value.copy< EmbeddedPDVType > (YY_MOVE (that.value));
-        break;
-
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
-        value.copy< EnumeratedType > (YY_MOVE (that.value));
-        break;
-
-      case 281: // EnumerationItem
-        value.copy< EnumerationValue > (YY_MOVE (that.value));
-        break;
-
-      case 321: // ExternalType
-        value.copy< ExternalType > (YY_MOVE (that.value));
-        break;
-
-      case 314: // IRIType
-        value.copy< IRIType > (YY_MOVE (that.value));
-        break;
-
-      case 245: // SymbolsFromModule
-        value.copy< Import > (YY_MOVE (that.value));
-        break;
-
-      case 215: // InstanceOfType
-        value.copy< InstanceOfType > (YY_MOVE (that.value));
-        break;
-
-      case 274: // IntegerType
-        value.copy< IntegerType > (YY_MOVE (that.value));
-        break;
-
-      case 239: // ModuleBody
-        value.copy< Module > (YY_MOVE (that.value));
-        break;
-
-      case 276: // NamedNumber
-        value.copy< NamedNumber > (YY_MOVE (that.value));
-        break;
-
-      case 265: // NamedType
-        value.copy< NamedType > (YY_MOVE (that.value));
-        break;
-
-      case 287: // NullType
-        value.copy< NullType > (YY_MOVE (that.value));
-        break;
-
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
-        value.copy< ObjectClassAssignment > (YY_MOVE (that.value));
-        break;
-
-      case 202: // ObjectClassFieldType
-        value.copy< ObjectClassFieldType > (YY_MOVE (that.value));
-        break;
-
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
-        value.copy< ObjectIdComponentValue > (YY_MOVE (that.value));
-        break;
-
-      case 306: // ObjectIdentifierType
-        value.copy< ObjectIdentifierType > (YY_MOVE (that.value));
-        break;
-
-      case 286: // OctetStringType
-        value.copy< OctetStringType > (YY_MOVE (that.value));
-        break;
-
-      case 210: // Parameter
-        value.copy< Parameter > (YY_MOVE (that.value));
-        break;
-
-      case 300: // PrefixedType
-        value.copy< PrefixedType > (YY_MOVE (that.value));
-        break;
-
-      case 282: // RealType
-        value.copy< RealType > (YY_MOVE (that.value));
-        break;
-
-      case 319: // RelativeIRIType
-        value.copy< RelativeIRIType > (YY_MOVE (that.value));
-        break;
-
-      case 313: // RelativeOIDType
-        value.copy< RelativeOIDType > (YY_MOVE (that.value));
-        break;
-
-      case 292: // SequenceOfType
-        value.copy< SequenceOfType > (YY_MOVE (that.value));
-        break;
-
-      case 288: // SequenceType
-        value.copy< SequenceType > (YY_MOVE (that.value));
-        break;
-
-      case 294: // SetOfType
-        value.copy< SetOfType > (YY_MOVE (that.value));
-        break;
-
-      case 293: // SetType
-        value.copy< SetType > (YY_MOVE (that.value));
-        break;
-
-      case 302: // Tag
-        value.copy< Tag > (YY_MOVE (that.value));
-        break;
-
-      case 301: // TaggedType
-        value.copy< TaggedType > (YY_MOVE (that.value));
-        break;
-
-      case 237: // TagDefault
-        value.copy< TaggingMode > (YY_MOVE (that.value));
-        break;
-
-      case 325: // TimeOfDayType
-        value.copy< TimeOfDayType > (YY_MOVE (that.value));
-        break;
-
-      case 322: // TimeType
-        value.copy< TimeType > (YY_MOVE (that.value));
-        break;
-
-      case 323: // TimeValue
-        value.copy< TimeValue > (YY_MOVE (that.value));
-        break;
-
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.copy< Type > (YY_MOVE (that.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.copy< Value > (YY_MOVE (that.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.copy< double > (YY_MOVE (that.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.copy< int > (YY_MOVE (that.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.copy< int64_t > (YY_MOVE (that.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.copy< std::string > (YY_MOVE (that.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.copy< std::vector<Assignment> > (YY_MOVE (that.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.copy< std::vector<ClassField> > (YY_MOVE (that.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.copy< std::vector<Export> > (YY_MOVE (that.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.copy< std::vector<Import> > (YY_MOVE (that.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.copy< std::vector<NamedNumber> > (YY_MOVE (that.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.copy< std::vector<NamedType> > (YY_MOVE (that.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.copy< std::vector<ObjectIdComponentValue> > (YY_MOVE (that.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.copy< std::vector<Parameter> > (YY_MOVE (that.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.copy< std::vector<Type> > (YY_MOVE (that.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.copy< std::vector<Value> > (YY_MOVE (that.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.copy< std::vector<std::string> > (YY_MOVE (that.value));
         break;
 
@@ -5770,11 +6327,20 @@ switch (yytype)
 
 
 
+
+  template <typename Base>
+  asn1_parser::symbol_kind_type
+  asn1_parser::basic_symbol<Base>::type_get () const YY_NOEXCEPT
+  {
+    return this->kind ();
+  }
+
+
   template <typename Base>
   bool
   asn1_parser::basic_symbol<Base>::empty () const YY_NOEXCEPT
   {
-    return Base::type_get () == empty_symbol;
+    return this->kind () == symbol_kind::S_YYEMPTY;
   }
 
   template <typename Base>
@@ -5782,330 +6348,330 @@ switch (yytype)
   asn1_parser::basic_symbol<Base>::move (basic_symbol& s)
   {
     super_type::move (s);
-    switch (this->type_get ())
+    switch (this->kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.move< Assignment > (YY_MOVE (s.value));
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.move< BitStringType > (YY_MOVE (s.value));
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.move< BooleanType > (YY_MOVE (s.value));
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.move< BooleanValue > (YY_MOVE (s.value));
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.move< BuiltinType > (YY_MOVE (s.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.move< CharacterStringType > (YY_MOVE (s.value));
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.move< ChoiceType > (YY_MOVE (s.value));
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.move< Class > (YY_MOVE (s.value));
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.move< Collection > (YY_MOVE (s.value));
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.move< ComponentType > (YY_MOVE (s.value));
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.move< ComponentTypeList > (YY_MOVE (s.value));
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.move< DateTimeType > (YY_MOVE (s.value));
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.move< DateType > (YY_MOVE (s.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.move< DefinedType > (YY_MOVE (s.value));
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.move< DefinedValue > (YY_MOVE (s.value));
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.move< DurationType > (YY_MOVE (s.value));
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.move< EmbeddedPDVType > (YY_MOVE (s.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.move< EnumeratedType > (YY_MOVE (s.value));
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.move< EnumerationValue > (YY_MOVE (s.value));
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.move< ExternalType > (YY_MOVE (s.value));
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.move< IRIType > (YY_MOVE (s.value));
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.move< Import > (YY_MOVE (s.value));
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.move< InstanceOfType > (YY_MOVE (s.value));
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.move< IntegerType > (YY_MOVE (s.value));
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.move< Module > (YY_MOVE (s.value));
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.move< NamedNumber > (YY_MOVE (s.value));
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.move< NamedType > (YY_MOVE (s.value));
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.move< NullType > (YY_MOVE (s.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.move< ObjectClassAssignment > (YY_MOVE (s.value));
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.move< ObjectClassFieldType > (YY_MOVE (s.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.move< ObjectIdComponentValue > (YY_MOVE (s.value));
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.move< ObjectIdentifierType > (YY_MOVE (s.value));
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.move< OctetStringType > (YY_MOVE (s.value));
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.move< Parameter > (YY_MOVE (s.value));
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.move< PrefixedType > (YY_MOVE (s.value));
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.move< RealType > (YY_MOVE (s.value));
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.move< RelativeIRIType > (YY_MOVE (s.value));
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.move< RelativeOIDType > (YY_MOVE (s.value));
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.move< SequenceOfType > (YY_MOVE (s.value));
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.move< SequenceType > (YY_MOVE (s.value));
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.move< SetOfType > (YY_MOVE (s.value));
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.move< SetType > (YY_MOVE (s.value));
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.move< Tag > (YY_MOVE (s.value));
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.move< TaggedType > (YY_MOVE (s.value));
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.move< TaggingMode > (YY_MOVE (s.value));
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.move< TimeOfDayType > (YY_MOVE (s.value));
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.move< TimeType > (YY_MOVE (s.value));
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.move< TimeValue > (YY_MOVE (s.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.move< Type > (YY_MOVE (s.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.move< Value > (YY_MOVE (s.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.move< double > (YY_MOVE (s.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< int > (YY_MOVE (s.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.move< int64_t > (YY_MOVE (s.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.move< std::string > (YY_MOVE (s.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.move< std::vector<Assignment> > (YY_MOVE (s.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.move< std::vector<ClassField> > (YY_MOVE (s.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.move< std::vector<Export> > (YY_MOVE (s.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.move< std::vector<Import> > (YY_MOVE (s.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.move< std::vector<NamedNumber> > (YY_MOVE (s.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.move< std::vector<NamedType> > (YY_MOVE (s.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.move< std::vector<ObjectIdComponentValue> > (YY_MOVE (s.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.move< std::vector<Parameter> > (YY_MOVE (s.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.move< std::vector<Type> > (YY_MOVE (s.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.move< std::vector<Value> > (YY_MOVE (s.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.move< std::vector<std::string> > (YY_MOVE (s.value));
         break;
 
@@ -6116,78 +6682,57 @@ switch (yytype)
     location = YY_MOVE (s.location);
   }
 
-  // by_type.
-  asn1_parser::by_type::by_type ()
-    : type (empty_symbol)
+  // by_kind.
+  asn1_parser::by_kind::by_kind () YY_NOEXCEPT
+    : kind_ (symbol_kind::S_YYEMPTY)
   {}
 
 #if 201103L <= YY_CPLUSPLUS
-  asn1_parser::by_type::by_type (by_type&& that)
-    : type (that.type)
+  asn1_parser::by_kind::by_kind (by_kind&& that) YY_NOEXCEPT
+    : kind_ (that.kind_)
   {
     that.clear ();
   }
 #endif
 
-  asn1_parser::by_type::by_type (const by_type& that)
-    : type (that.type)
+  asn1_parser::by_kind::by_kind (const by_kind& that) YY_NOEXCEPT
+    : kind_ (that.kind_)
   {}
 
-  asn1_parser::by_type::by_type (token_type t)
-    : type (yytranslate_ (t))
+  asn1_parser::by_kind::by_kind (token_kind_type t) YY_NOEXCEPT
+    : kind_ (yytranslate_ (t))
   {}
 
+
+
   void
-  asn1_parser::by_type::clear ()
+  asn1_parser::by_kind::clear () YY_NOEXCEPT
   {
-    type = empty_symbol;
+    kind_ = symbol_kind::S_YYEMPTY;
   }
 
   void
-  asn1_parser::by_type::move (by_type& that)
+  asn1_parser::by_kind::move (by_kind& that)
   {
-    type = that.type;
+    kind_ = that.kind_;
     that.clear ();
   }
 
-  int
-  asn1_parser::by_type::type_get () const YY_NOEXCEPT
+  asn1_parser::symbol_kind_type
+  asn1_parser::by_kind::kind () const YY_NOEXCEPT
   {
-    return type;
+    return kind_;
   }
 
-  asn1_parser::token_type
-  asn1_parser::by_type::token () const YY_NOEXCEPT
+
+  asn1_parser::symbol_kind_type
+  asn1_parser::by_kind::type_get () const YY_NOEXCEPT
   {
-    // YYTOKNUM[NUM] -- (External) token number corresponding to the
-    // (internal) symbol number NUM (which must be that of a token).  */
-    static
-    const unsigned short
-    yytoken_number_[] =
-    {
-       0,   256,   257,   258,   259,   260,   261,   262,   263,   264,
-     265,   266,   267,   268,   269,   270,   271,   272,   273,   274,
-     275,   276,   277,   278,   279,   280,   281,   282,   283,   284,
-     285,   286,   287,   288,   289,   290,   291,   292,   293,   294,
-     295,   296,   297,   298,   299,   300,   301,   302,   303,   304,
-     305,   306,   307,   308,   309,   310,   311,   312,   313,   314,
-     315,   316,   317,   318,   319,   320,   321,   322,   323,   324,
-     325,   326,   327,   328,   329,   330,   331,   332,   333,   334,
-     335,   336,   337,   338,   339,   340,   341,   342,   343,   344,
-     345,   346,   347,   348,   349,   350,   351,   352,   353,   354,
-     355,   356,   357,   358,   359,   360,   361,   362,   363,   364,
-     365,   366,   367,   368,   369,   370,   371,   372,   373,   374,
-     375,   376,   377,   378,   379,   380,   381,   382,   383,   384,
-     385,   386,   387,   388,   389,   390,   391,   392,   393,   394,
-     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
-     405,   406,   407
-    };
-    return token_type (yytoken_number_[type]);
+    return this->kind ();
   }
 
 
 } // yy
-#line 6189 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:431
 
 
 
@@ -6195,7 +6740,6 @@ switch (yytype)
 
 
 // Unqualified %code blocks.
-#line 16 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:435
 
     struct Context
     {
@@ -6211,7 +6755,6 @@ switch (yytype)
 
     namespace yy { asn1_parser::symbol_type yylex(Context& c); }
 
-#line 6213 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:435
 
 
 #ifndef YY_
@@ -6226,6 +6769,7 @@ switch (yytype)
 # endif
 #endif
 
+
 // Whether we are compiled with exception support.
 #ifndef YY_EXCEPTIONS
 # if defined __GNUC__ && !defined __EXCEPTIONS
@@ -6256,9 +6800,6 @@ switch (yytype)
 # endif
 
 
-// Suppress unused-variable warnings by "using" E.
-#define YYUSE(E) ((void) (E))
-
 // Enable debugging if requested.
 #if YYDEBUG
 
@@ -6284,13 +6825,13 @@ switch (yytype)
 # define YY_STACK_PRINT()               \
   do {                                  \
     if (yydebug_)                       \
-      yystack_print_ ();                \
+      yy_stack_print_ ();                \
   } while (false)
 
 #else // !YYDEBUG
 
 # define YYCDEBUG if (false) std::cerr
-# define YY_SYMBOL_PRINT(Title, Symbol)  YYUSE (Symbol)
+# define YY_SYMBOL_PRINT(Title, Symbol)  YY_USE (Symbol)
 # define YY_REDUCE_PRINT(Rule)           static_cast<void> (0)
 # define YY_STACK_PRINT()                static_cast<void> (0)
 
@@ -6304,70 +6845,28 @@ switch (yytype)
 #define YYERROR         goto yyerrorlab
 #define YYRECOVERING()  (!!yyerrstatus_)
 
-
 namespace yy {
-#line 6308 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:510
 
-  /* Return YYSTR after stripping away unnecessary quotes and
-     backslashes, so that it's suitable for yyerror.  The heuristic is
-     that double-quoting is unnecessary unless the string contains an
-     apostrophe, a comma, or backslash (other than backslash-backslash).
-     YYSTR is taken from yytname.  */
-  std::string
-  asn1_parser::yytnamerr_ (const char *yystr)
-  {
-    if (*yystr == '"')
-      {
-        std::string yyr;
-        char const *yyp = yystr;
+  /// Build a parser object.
+  asn1_parser::asn1_parser (Context& context__yyarg)
+#if YYDEBUG
+    : yydebug_ (false),
+      yycdebug_ (&std::cerr),
+#else
+    :
+#endif
+      context_ (context__yyarg)
+  {}
 
-        for (;;)
-          switch (*++yyp)
-            {
-            case '\'':
-            case ',':
-              goto do_not_strip_quotes;
-
-            case '\\':
-              if (*++yyp != '\\')
-                goto do_not_strip_quotes;
-              else
-                goto append;
-
-            append:
-            default:
-              yyr += *yyp;
-              break;
-
-            case '"':
-              return yyr;
-            }
-      do_not_strip_quotes: ;
-      }
-
-    return yystr;
-  }
-
-
-  /// Build a parser object.
-  asn1_parser::asn1_parser (Context& context__yyarg)
-    :
-#if YYDEBUG
-      yydebug_ (false),
-      yycdebug_ (&std::cerr),
-#endif
-      context_ (context__yyarg)
-  {}
-
-  asn1_parser::~asn1_parser ()
-  {}
+  asn1_parser::~asn1_parser ()
+  {}
 
   asn1_parser::syntax_error::~syntax_error () YY_NOEXCEPT YY_NOTHROW
   {}
 
-  /*---------------.
-  | Symbol types.  |
-  `---------------*/
+  /*---------.
+  | symbol.  |
+  `---------*/
 
 
 
@@ -6397,13 +6896,13 @@ namespace yy {
     : state (s)
   {}
 
-  asn1_parser::symbol_number_type
-  asn1_parser::by_state::type_get () const YY_NOEXCEPT
+  asn1_parser::symbol_kind_type
+  asn1_parser::by_state::kind () const YY_NOEXCEPT
   {
     if (state == empty_state)
-      return empty_symbol;
+      return symbol_kind::S_YYEMPTY;
     else
-      return yystos_[state];
+      return YY_CAST (symbol_kind_type, yystos_[+state]);
   }
 
   asn1_parser::stack_symbol_type::stack_symbol_type ()
@@ -6412,330 +6911,330 @@ namespace yy {
   asn1_parser::stack_symbol_type::stack_symbol_type (YY_RVREF (stack_symbol_type) that)
     : super_type (YY_MOVE (that.state), YY_MOVE (that.location))
   {
-    switch (that.type_get ())
+    switch (that.kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.YY_MOVE_OR_COPY< Assignment > (YY_MOVE (that.value));
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.YY_MOVE_OR_COPY< BitStringType > (YY_MOVE (that.value));
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.YY_MOVE_OR_COPY< BooleanType > (YY_MOVE (that.value));
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.YY_MOVE_OR_COPY< BooleanValue > (YY_MOVE (that.value));
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.YY_MOVE_OR_COPY< BuiltinType > (YY_MOVE (that.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.YY_MOVE_OR_COPY< CharacterStringType > (YY_MOVE (that.value));
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.YY_MOVE_OR_COPY< ChoiceType > (YY_MOVE (that.value));
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.YY_MOVE_OR_COPY< Class > (YY_MOVE (that.value));
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.YY_MOVE_OR_COPY< Collection > (YY_MOVE (that.value));
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.YY_MOVE_OR_COPY< ComponentType > (YY_MOVE (that.value));
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.YY_MOVE_OR_COPY< ComponentTypeList > (YY_MOVE (that.value));
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.YY_MOVE_OR_COPY< DateTimeType > (YY_MOVE (that.value));
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.YY_MOVE_OR_COPY< DateType > (YY_MOVE (that.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.YY_MOVE_OR_COPY< DefinedType > (YY_MOVE (that.value));
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.YY_MOVE_OR_COPY< DefinedValue > (YY_MOVE (that.value));
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.YY_MOVE_OR_COPY< DurationType > (YY_MOVE (that.value));
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.YY_MOVE_OR_COPY< EmbeddedPDVType > (YY_MOVE (that.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.YY_MOVE_OR_COPY< EnumeratedType > (YY_MOVE (that.value));
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.YY_MOVE_OR_COPY< EnumerationValue > (YY_MOVE (that.value));
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.YY_MOVE_OR_COPY< ExternalType > (YY_MOVE (that.value));
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.YY_MOVE_OR_COPY< IRIType > (YY_MOVE (that.value));
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.YY_MOVE_OR_COPY< Import > (YY_MOVE (that.value));
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.YY_MOVE_OR_COPY< InstanceOfType > (YY_MOVE (that.value));
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.YY_MOVE_OR_COPY< IntegerType > (YY_MOVE (that.value));
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.YY_MOVE_OR_COPY< Module > (YY_MOVE (that.value));
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.YY_MOVE_OR_COPY< NamedNumber > (YY_MOVE (that.value));
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.YY_MOVE_OR_COPY< NamedType > (YY_MOVE (that.value));
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.YY_MOVE_OR_COPY< NullType > (YY_MOVE (that.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.YY_MOVE_OR_COPY< ObjectClassAssignment > (YY_MOVE (that.value));
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.YY_MOVE_OR_COPY< ObjectClassFieldType > (YY_MOVE (that.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.YY_MOVE_OR_COPY< ObjectIdComponentValue > (YY_MOVE (that.value));
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.YY_MOVE_OR_COPY< ObjectIdentifierType > (YY_MOVE (that.value));
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.YY_MOVE_OR_COPY< OctetStringType > (YY_MOVE (that.value));
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.YY_MOVE_OR_COPY< Parameter > (YY_MOVE (that.value));
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.YY_MOVE_OR_COPY< PrefixedType > (YY_MOVE (that.value));
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.YY_MOVE_OR_COPY< RealType > (YY_MOVE (that.value));
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.YY_MOVE_OR_COPY< RelativeIRIType > (YY_MOVE (that.value));
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.YY_MOVE_OR_COPY< RelativeOIDType > (YY_MOVE (that.value));
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.YY_MOVE_OR_COPY< SequenceOfType > (YY_MOVE (that.value));
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.YY_MOVE_OR_COPY< SequenceType > (YY_MOVE (that.value));
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.YY_MOVE_OR_COPY< SetOfType > (YY_MOVE (that.value));
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.YY_MOVE_OR_COPY< SetType > (YY_MOVE (that.value));
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.YY_MOVE_OR_COPY< Tag > (YY_MOVE (that.value));
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.YY_MOVE_OR_COPY< TaggedType > (YY_MOVE (that.value));
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.YY_MOVE_OR_COPY< TaggingMode > (YY_MOVE (that.value));
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.YY_MOVE_OR_COPY< TimeOfDayType > (YY_MOVE (that.value));
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.YY_MOVE_OR_COPY< TimeType > (YY_MOVE (that.value));
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.YY_MOVE_OR_COPY< TimeValue > (YY_MOVE (that.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.YY_MOVE_OR_COPY< Type > (YY_MOVE (that.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.YY_MOVE_OR_COPY< Value > (YY_MOVE (that.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.YY_MOVE_OR_COPY< double > (YY_MOVE (that.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.YY_MOVE_OR_COPY< int > (YY_MOVE (that.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.YY_MOVE_OR_COPY< int64_t > (YY_MOVE (that.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.YY_MOVE_OR_COPY< std::string > (YY_MOVE (that.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.YY_MOVE_OR_COPY< std::vector<Assignment> > (YY_MOVE (that.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.YY_MOVE_OR_COPY< std::vector<ClassField> > (YY_MOVE (that.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.YY_MOVE_OR_COPY< std::vector<Export> > (YY_MOVE (that.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.YY_MOVE_OR_COPY< std::vector<Import> > (YY_MOVE (that.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.YY_MOVE_OR_COPY< std::vector<NamedNumber> > (YY_MOVE (that.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.YY_MOVE_OR_COPY< std::vector<NamedType> > (YY_MOVE (that.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.YY_MOVE_OR_COPY< std::vector<ObjectIdComponentValue> > (YY_MOVE (that.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.YY_MOVE_OR_COPY< std::vector<Parameter> > (YY_MOVE (that.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.YY_MOVE_OR_COPY< std::vector<Type> > (YY_MOVE (that.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.YY_MOVE_OR_COPY< std::vector<Value> > (YY_MOVE (that.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.YY_MOVE_OR_COPY< std::vector<std::string> > (YY_MOVE (that.value));
         break;
 
@@ -6752,330 +7251,330 @@ namespace yy {
   asn1_parser::stack_symbol_type::stack_symbol_type (state_type s, YY_MOVE_REF (symbol_type) that)
     : super_type (s, YY_MOVE (that.location))
   {
-    switch (that.type_get ())
+    switch (that.kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.move< Assignment > (YY_MOVE (that.value));
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.move< BitStringType > (YY_MOVE (that.value));
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.move< BooleanType > (YY_MOVE (that.value));
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.move< BooleanValue > (YY_MOVE (that.value));
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.move< BuiltinType > (YY_MOVE (that.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.move< CharacterStringType > (YY_MOVE (that.value));
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.move< ChoiceType > (YY_MOVE (that.value));
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.move< Class > (YY_MOVE (that.value));
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.move< Collection > (YY_MOVE (that.value));
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.move< ComponentType > (YY_MOVE (that.value));
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.move< ComponentTypeList > (YY_MOVE (that.value));
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.move< DateTimeType > (YY_MOVE (that.value));
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.move< DateType > (YY_MOVE (that.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.move< DefinedType > (YY_MOVE (that.value));
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.move< DefinedValue > (YY_MOVE (that.value));
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.move< DurationType > (YY_MOVE (that.value));
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.move< EmbeddedPDVType > (YY_MOVE (that.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.move< EnumeratedType > (YY_MOVE (that.value));
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.move< EnumerationValue > (YY_MOVE (that.value));
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.move< ExternalType > (YY_MOVE (that.value));
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.move< IRIType > (YY_MOVE (that.value));
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.move< Import > (YY_MOVE (that.value));
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.move< InstanceOfType > (YY_MOVE (that.value));
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.move< IntegerType > (YY_MOVE (that.value));
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.move< Module > (YY_MOVE (that.value));
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.move< NamedNumber > (YY_MOVE (that.value));
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.move< NamedType > (YY_MOVE (that.value));
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.move< NullType > (YY_MOVE (that.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.move< ObjectClassAssignment > (YY_MOVE (that.value));
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.move< ObjectClassFieldType > (YY_MOVE (that.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.move< ObjectIdComponentValue > (YY_MOVE (that.value));
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.move< ObjectIdentifierType > (YY_MOVE (that.value));
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.move< OctetStringType > (YY_MOVE (that.value));
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.move< Parameter > (YY_MOVE (that.value));
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.move< PrefixedType > (YY_MOVE (that.value));
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.move< RealType > (YY_MOVE (that.value));
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.move< RelativeIRIType > (YY_MOVE (that.value));
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.move< RelativeOIDType > (YY_MOVE (that.value));
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.move< SequenceOfType > (YY_MOVE (that.value));
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.move< SequenceType > (YY_MOVE (that.value));
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.move< SetOfType > (YY_MOVE (that.value));
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.move< SetType > (YY_MOVE (that.value));
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.move< Tag > (YY_MOVE (that.value));
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.move< TaggedType > (YY_MOVE (that.value));
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.move< TaggingMode > (YY_MOVE (that.value));
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.move< TimeOfDayType > (YY_MOVE (that.value));
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.move< TimeType > (YY_MOVE (that.value));
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.move< TimeValue > (YY_MOVE (that.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.move< Type > (YY_MOVE (that.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.move< Value > (YY_MOVE (that.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.move< double > (YY_MOVE (that.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< int > (YY_MOVE (that.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.move< int64_t > (YY_MOVE (that.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.move< std::string > (YY_MOVE (that.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.move< std::vector<Assignment> > (YY_MOVE (that.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.move< std::vector<ClassField> > (YY_MOVE (that.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.move< std::vector<Export> > (YY_MOVE (that.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.move< std::vector<Import> > (YY_MOVE (that.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.move< std::vector<NamedNumber> > (YY_MOVE (that.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.move< std::vector<NamedType> > (YY_MOVE (that.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.move< std::vector<ObjectIdComponentValue> > (YY_MOVE (that.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.move< std::vector<Parameter> > (YY_MOVE (that.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.move< std::vector<Type> > (YY_MOVE (that.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.move< std::vector<Value> > (YY_MOVE (that.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.move< std::vector<std::string> > (YY_MOVE (that.value));
         break;
 
@@ -7084,338 +7583,677 @@ namespace yy {
     }
 
     // that is emptied.
-    that.type = empty_symbol;
+    that.kind_ = symbol_kind::S_YYEMPTY;
   }
 
 #if YY_CPLUSPLUS < 201103L
+  asn1_parser::stack_symbol_type&
+  asn1_parser::stack_symbol_type::operator= (const stack_symbol_type& that)
+  {
+    state = that.state;
+    switch (that.kind ())
+    {
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
+        value.copy< Assignment > (that.value);
+        break;
+
+      case symbol_kind::S_BitStringType: // BitStringType
+        value.copy< BitStringType > (that.value);
+        break;
+
+      case symbol_kind::S_BooleanType: // BooleanType
+        value.copy< BooleanType > (that.value);
+        break;
+
+      case symbol_kind::S_BooleanValue: // BooleanValue
+        value.copy< BooleanValue > (that.value);
+        break;
+
+      case symbol_kind::S_BuiltinType: // BuiltinType
+        value.copy< BuiltinType > (that.value);
+        break;
+
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
+        value.copy< CharacterStringType > (that.value);
+        break;
+
+      case symbol_kind::S_ChoiceType: // ChoiceType
+        value.copy< ChoiceType > (that.value);
+        break;
+
+      case symbol_kind::S_Class: // Class
+        value.copy< Class > (that.value);
+        break;
+
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
+        value.copy< Collection > (that.value);
+        break;
+
+      case symbol_kind::S_ComponentType: // ComponentType
+        value.copy< ComponentType > (that.value);
+        break;
+
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
+        value.copy< ComponentTypeList > (that.value);
+        break;
+
+      case symbol_kind::S_DateTimeType: // DateTimeType
+        value.copy< DateTimeType > (that.value);
+        break;
+
+      case symbol_kind::S_DateType: // DateType
+        value.copy< DateType > (that.value);
+        break;
+
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
+        value.copy< DefinedType > (that.value);
+        break;
+
+      case symbol_kind::S_DefinedValue: // DefinedValue
+        value.copy< DefinedValue > (that.value);
+        break;
+
+      case symbol_kind::S_DurationType: // DurationType
+        value.copy< DurationType > (that.value);
+        break;
+
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
+        value.copy< EmbeddedPDVType > (that.value);
+        break;
+
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
+        value.copy< EnumeratedType > (that.value);
+        break;
+
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
+        value.copy< EnumerationValue > (that.value);
+        break;
+
+      case symbol_kind::S_ExternalType: // ExternalType
+        value.copy< ExternalType > (that.value);
+        break;
+
+      case symbol_kind::S_IRIType: // IRIType
+        value.copy< IRIType > (that.value);
+        break;
+
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
+        value.copy< Import > (that.value);
+        break;
+
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
+        value.copy< InstanceOfType > (that.value);
+        break;
+
+      case symbol_kind::S_IntegerType: // IntegerType
+        value.copy< IntegerType > (that.value);
+        break;
+
+      case symbol_kind::S_ModuleBody: // ModuleBody
+        value.copy< Module > (that.value);
+        break;
+
+      case symbol_kind::S_NamedNumber: // NamedNumber
+        value.copy< NamedNumber > (that.value);
+        break;
+
+      case symbol_kind::S_NamedType: // NamedType
+        value.copy< NamedType > (that.value);
+        break;
+
+      case symbol_kind::S_NullType: // NullType
+        value.copy< NullType > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
+        value.copy< ObjectClassAssignment > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
+        value.copy< ObjectClassFieldType > (that.value);
+        break;
+
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
+        value.copy< ObjectIdComponentValue > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
+        value.copy< ObjectIdentifierType > (that.value);
+        break;
+
+      case symbol_kind::S_OctetStringType: // OctetStringType
+        value.copy< OctetStringType > (that.value);
+        break;
+
+      case symbol_kind::S_Parameter: // Parameter
+        value.copy< Parameter > (that.value);
+        break;
+
+      case symbol_kind::S_PrefixedType: // PrefixedType
+        value.copy< PrefixedType > (that.value);
+        break;
+
+      case symbol_kind::S_RealType: // RealType
+        value.copy< RealType > (that.value);
+        break;
+
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
+        value.copy< RelativeIRIType > (that.value);
+        break;
+
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
+        value.copy< RelativeOIDType > (that.value);
+        break;
+
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
+        value.copy< SequenceOfType > (that.value);
+        break;
+
+      case symbol_kind::S_SequenceType: // SequenceType
+        value.copy< SequenceType > (that.value);
+        break;
+
+      case symbol_kind::S_SetOfType: // SetOfType
+        value.copy< SetOfType > (that.value);
+        break;
+
+      case symbol_kind::S_SetType: // SetType
+        value.copy< SetType > (that.value);
+        break;
+
+      case symbol_kind::S_Tag: // Tag
+        value.copy< Tag > (that.value);
+        break;
+
+      case symbol_kind::S_TaggedType: // TaggedType
+        value.copy< TaggedType > (that.value);
+        break;
+
+      case symbol_kind::S_TagDefault: // TagDefault
+        value.copy< TaggingMode > (that.value);
+        break;
+
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
+        value.copy< TimeOfDayType > (that.value);
+        break;
+
+      case symbol_kind::S_TimeType: // TimeType
+        value.copy< TimeType > (that.value);
+        break;
+
+      case symbol_kind::S_TimeValue: // TimeValue
+        value.copy< TimeValue > (that.value);
+        break;
+
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
+        value.copy< Type > (that.value);
+        break;
+
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
+        value.copy< Value > (that.value);
+        break;
+
+      case symbol_kind::S_realnumber: // realnumber
+        value.copy< double > (that.value);
+        break;
+
+      case symbol_kind::S_ClassNumber: // ClassNumber
+        value.copy< int > (that.value);
+        break;
+
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
+        value.copy< int64_t > (that.value);
+        break;
+
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
+        value.copy< std::string > (that.value);
+        break;
+
+      case symbol_kind::S_AssignmentList: // AssignmentList
+        value.copy< std::vector<Assignment> > (that.value);
+        break;
+
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
+        value.copy< std::vector<ClassField> > (that.value);
+        break;
+
+      case symbol_kind::S_Exports: // Exports
+        value.copy< std::vector<Export> > (that.value);
+        break;
+
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
+        value.copy< std::vector<Import> > (that.value);
+        break;
+
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
+        value.copy< std::vector<NamedNumber> > (that.value);
+        break;
+
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
+        value.copy< std::vector<NamedType> > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
+        value.copy< std::vector<ObjectIdComponentValue> > (that.value);
+        break;
+
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
+        value.copy< std::vector<Parameter> > (that.value);
+        break;
+
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
+        value.copy< std::vector<Type> > (that.value);
+        break;
+
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
+        value.copy< std::vector<Value> > (that.value);
+        break;
+
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
+        value.copy< std::vector<std::string> > (that.value);
+        break;
+
+      default:
+        break;
+    }
+
+    location = that.location;
+    return *this;
+  }
+
   asn1_parser::stack_symbol_type&
   asn1_parser::stack_symbol_type::operator= (stack_symbol_type& that)
   {
     state = that.state;
-    switch (that.type_get ())
+    switch (that.kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.move< Assignment > (that.value);
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.move< BitStringType > (that.value);
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.move< BooleanType > (that.value);
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.move< BooleanValue > (that.value);
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.move< BuiltinType > (that.value);
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.move< CharacterStringType > (that.value);
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.move< ChoiceType > (that.value);
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.move< Class > (that.value);
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.move< Collection > (that.value);
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.move< ComponentType > (that.value);
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.move< ComponentTypeList > (that.value);
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.move< DateTimeType > (that.value);
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.move< DateType > (that.value);
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.move< DefinedType > (that.value);
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.move< DefinedValue > (that.value);
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.move< DurationType > (that.value);
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.move< EmbeddedPDVType > (that.value);
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.move< EnumeratedType > (that.value);
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.move< EnumerationValue > (that.value);
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.move< ExternalType > (that.value);
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.move< IRIType > (that.value);
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.move< Import > (that.value);
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.move< InstanceOfType > (that.value);
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.move< IntegerType > (that.value);
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.move< Module > (that.value);
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.move< NamedNumber > (that.value);
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.move< NamedType > (that.value);
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.move< NullType > (that.value);
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.move< ObjectClassAssignment > (that.value);
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.move< ObjectClassFieldType > (that.value);
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.move< ObjectIdComponentValue > (that.value);
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.move< ObjectIdentifierType > (that.value);
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.move< OctetStringType > (that.value);
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.move< Parameter > (that.value);
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.move< PrefixedType > (that.value);
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.move< RealType > (that.value);
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.move< RelativeIRIType > (that.value);
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.move< RelativeOIDType > (that.value);
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.move< SequenceOfType > (that.value);
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.move< SequenceType > (that.value);
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.move< SetOfType > (that.value);
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.move< SetType > (that.value);
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.move< Tag > (that.value);
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.move< TaggedType > (that.value);
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.move< TaggingMode > (that.value);
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.move< TimeOfDayType > (that.value);
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.move< TimeType > (that.value);
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.move< TimeValue > (that.value);
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.move< Type > (that.value);
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.move< Value > (that.value);
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.move< double > (that.value);
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< int > (that.value);
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.move< int64_t > (that.value);
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.move< std::string > (that.value);
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.move< std::vector<Assignment> > (that.value);
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.move< std::vector<ClassField> > (that.value);
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.move< std::vector<Export> > (that.value);
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.move< std::vector<Import> > (that.value);
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.move< std::vector<NamedNumber> > (that.value);
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.move< std::vector<NamedType> > (that.value);
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.move< std::vector<ObjectIdComponentValue> > (that.value);
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.move< std::vector<Parameter> > (that.value);
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.move< std::vector<Type> > (that.value);
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.move< std::vector<Value> > (that.value);
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.move< std::vector<std::string> > (that.value);
         break;
 
@@ -7441,23 +8279,21 @@ namespace yy {
 #if YYDEBUG
   template <typename Base>
   void
-  asn1_parser::yy_print_ (std::ostream& yyo,
-                                     const basic_symbol<Base>& yysym) const
+  asn1_parser::yy_print_ (std::ostream& yyo, const basic_symbol<Base>& yysym) const
   {
     std::ostream& yyoutput = yyo;
-    YYUSE (yyoutput);
-    symbol_number_type yytype = yysym.type_get ();
-#if defined __GNUC__ && ! defined __clang__ && ! defined __ICC && __GNUC__ * 100 + __GNUC_MINOR__ <= 408
-    // Avoid a (spurious) G++ 4.8 warning about "array subscript is
-    // below array bounds".
+    YY_USE (yyoutput);
     if (yysym.empty ())
-      std::abort ();
-#endif
-    yyo << (yytype < yyntokens_ ? "token" : "nterm")
-        << ' ' << yytname_[yytype] << " ("
-        << yysym.location << ": ";
-    YYUSE (yytype);
-    yyo << ')';
+      yyo << "empty symbol";
+    else
+      {
+        symbol_kind_type yykind = yysym.kind ();
+        yyo << (yykind < YYNTOKENS ? "token" : "nterm")
+            << ' ' << yysym.name () << " ("
+            << yysym.location << ": ";
+        YY_USE (yykind);
+        yyo << ')';
+      }
   }
 #endif
 
@@ -7481,7 +8317,7 @@ namespace yy {
   }
 
   void
-  asn1_parser::yypop_ (int n)
+  asn1_parser::yypop_ (int n) YY_NOEXCEPT
   {
     yystack_.pop (n);
   }
@@ -7516,21 +8352,21 @@ namespace yy {
   asn1_parser::state_type
   asn1_parser::yy_lr_goto_state_ (state_type yystate, int yysym)
   {
-    int yyr = yypgoto_[yysym - yyntokens_] + yystate;
+    int yyr = yypgoto_[yysym - YYNTOKENS] + yystate;
     if (0 <= yyr && yyr <= yylast_ && yycheck_[yyr] == yystate)
       return yytable_[yyr];
     else
-      return yydefgoto_[yysym - yyntokens_];
+      return yydefgoto_[yysym - YYNTOKENS];
   }
 
   bool
-  asn1_parser::yy_pact_value_is_default_ (int yyvalue)
+  asn1_parser::yy_pact_value_is_default_ (int yyvalue) YY_NOEXCEPT
   {
     return yyvalue == yypact_ninf_;
   }
 
   bool
-  asn1_parser::yy_table_value_is_error_ (int yyvalue)
+  asn1_parser::yy_table_value_is_error_ (int yyvalue) YY_NOEXCEPT
   {
     return yyvalue == yytable_ninf_;
   }
@@ -7544,7 +8380,6 @@ namespace yy {
   int
   asn1_parser::parse ()
   {
-    // State.
     int yyn;
     /// Length of the RHS of the rule being reduced.
     int yylen = 0;
@@ -7580,7 +8415,8 @@ namespace yy {
   | yynewstate -- push a new symbol on the stack.  |
   `-----------------------------------------------*/
   yynewstate:
-    YYCDEBUG << "Entering state " << yystack_[0].state << '\n';
+    YYCDEBUG << "Entering state " << int (yystack_[0].state) << '\n';
+    YY_STACK_PRINT ();
 
     // Accept?
     if (yystack_[0].state == yyfinal_)
@@ -7594,14 +8430,14 @@ namespace yy {
   `-----------*/
   yybackup:
     // Try to take a decision without lookahead.
-    yyn = yypact_[yystack_[0].state];
+    yyn = yypact_[+yystack_[0].state];
     if (yy_pact_value_is_default_ (yyn))
       goto yydefault;
 
     // Read a lookahead token.
     if (yyla.empty ())
       {
-        YYCDEBUG << "Reading a token: ";
+        YYCDEBUG << "Reading a token\n";
 #if YY_EXCEPTIONS
         try
 #endif // YY_EXCEPTIONS
@@ -7620,11 +8456,23 @@ namespace yy {
       }
     YY_SYMBOL_PRINT ("Next token is", yyla);
 
+    if (yyla.kind () == symbol_kind::S_YYerror)
+    {
+      // The scanner already issued an error message, process directly
+      // to error recovery.  But do not keep the error token as
+      // lookahead, it is too special and may lead us to an endless
+      // loop in error recovery. */
+      yyla.kind_ = symbol_kind::S_YYUNDEF;
+      goto yyerrlab1;
+    }
+
     /* If the proper action on seeing token YYLA.TYPE is to reduce or
        to detect an error, take that action.  */
-    yyn += yyla.type_get ();
-    if (yyn < 0 || yylast_ < yyn || yycheck_[yyn] != yyla.type_get ())
-      goto yydefault;
+    yyn += yyla.kind ();
+    if (yyn < 0 || yylast_ < yyn || yycheck_[yyn] != yyla.kind ())
+      {
+        goto yydefault;
+      }
 
     // Reduce or error.
     yyn = yytable_[yyn];
@@ -7641,7 +8489,7 @@ namespace yy {
       --yyerrstatus_;
 
     // Shift the lookahead token.
-    yypush_ ("Shifting", yyn, YY_MOVE (yyla));
+    yypush_ ("Shifting", state_type (yyn), YY_MOVE (yyla));
     goto yynewstate;
 
 
@@ -7649,7 +8497,7 @@ namespace yy {
   | yydefault -- do the default action for the current state.  |
   `-----------------------------------------------------------*/
   yydefault:
-    yyn = yydefact_[yystack_[0].state];
+    yyn = yydefact_[+yystack_[0].state];
     if (yyn == 0)
       goto yyerrlab;
     goto yyreduce;
@@ -7668,328 +8516,328 @@ namespace yy {
          when using variants.  */
       switch (yyr1_[yyn])
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         yylhs.value.emplace< Assignment > ();
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         yylhs.value.emplace< BitStringType > ();
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         yylhs.value.emplace< BooleanType > ();
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         yylhs.value.emplace< BooleanValue > ();
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         yylhs.value.emplace< BuiltinType > ();
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         yylhs.value.emplace< CharacterStringType > ();
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         yylhs.value.emplace< ChoiceType > ();
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         yylhs.value.emplace< Class > ();
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         yylhs.value.emplace< Collection > ();
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         yylhs.value.emplace< ComponentType > ();
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         yylhs.value.emplace< ComponentTypeList > ();
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         yylhs.value.emplace< DateTimeType > ();
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         yylhs.value.emplace< DateType > ();
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         yylhs.value.emplace< DefinedType > ();
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         yylhs.value.emplace< DefinedValue > ();
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         yylhs.value.emplace< DurationType > ();
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         yylhs.value.emplace< EmbeddedPDVType > ();
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         yylhs.value.emplace< EnumeratedType > ();
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         yylhs.value.emplace< EnumerationValue > ();
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         yylhs.value.emplace< ExternalType > ();
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         yylhs.value.emplace< IRIType > ();
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         yylhs.value.emplace< Import > ();
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         yylhs.value.emplace< InstanceOfType > ();
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         yylhs.value.emplace< IntegerType > ();
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         yylhs.value.emplace< Module > ();
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         yylhs.value.emplace< NamedNumber > ();
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         yylhs.value.emplace< NamedType > ();
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         yylhs.value.emplace< NullType > ();
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         yylhs.value.emplace< ObjectClassAssignment > ();
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         yylhs.value.emplace< ObjectClassFieldType > ();
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         yylhs.value.emplace< ObjectIdComponentValue > ();
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         yylhs.value.emplace< ObjectIdentifierType > ();
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         yylhs.value.emplace< OctetStringType > ();
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         yylhs.value.emplace< Parameter > ();
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         yylhs.value.emplace< PrefixedType > ();
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         yylhs.value.emplace< RealType > ();
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         yylhs.value.emplace< RelativeIRIType > ();
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         yylhs.value.emplace< RelativeOIDType > ();
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         yylhs.value.emplace< SequenceOfType > ();
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         yylhs.value.emplace< SequenceType > ();
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         yylhs.value.emplace< SetOfType > ();
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         yylhs.value.emplace< SetType > ();
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         yylhs.value.emplace< Tag > ();
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         yylhs.value.emplace< TaggedType > ();
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         yylhs.value.emplace< TaggingMode > ();
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         yylhs.value.emplace< TimeOfDayType > ();
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         yylhs.value.emplace< TimeType > ();
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         yylhs.value.emplace< TimeValue > ();
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         yylhs.value.emplace< Type > ();
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         yylhs.value.emplace< Value > ();
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         yylhs.value.emplace< double > ();
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         yylhs.value.emplace< int > ();
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         yylhs.value.emplace< int64_t > ();
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         yylhs.value.emplace< std::string > ();
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         yylhs.value.emplace< std::vector<Assignment> > ();
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         yylhs.value.emplace< std::vector<ClassField> > ();
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         yylhs.value.emplace< std::vector<Export> > ();
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         yylhs.value.emplace< std::vector<Import> > ();
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         yylhs.value.emplace< std::vector<NamedNumber> > ();
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         yylhs.value.emplace< std::vector<NamedType> > ();
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         yylhs.value.emplace< std::vector<ObjectIdComponentValue> > ();
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         yylhs.value.emplace< std::vector<Parameter> > ();
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         yylhs.value.emplace< std::vector<Type> > ();
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         yylhs.value.emplace< std::vector<Value> > ();
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         yylhs.value.emplace< std::vector<std::string> > ();
         break;
 
@@ -8013,342 +8861,231 @@ namespace yy {
         {
           switch (yyn)
             {
-  case 4:
-#line 341 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 4: // ModuleDefinition: ModuleIdentifier DEFINITIONS EncodingReferenceDefault TagDefault ExtensionDefault "::=" BEGIN ModuleBody EncodingControlSections END
     { yystack_[2].value.as < Module > ().module_reference = yystack_[9].value.as < std::string > ();
       yystack_[2].value.as < Module > ().tagging_default = yystack_[6].value.as < TaggingMode > ();
       context_.asn1_tree.modules.push_back(yystack_[2].value.as < Module > ()); }
-#line 8020 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 10:
-#line 358 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 10: // UsefulObjectClassReference: TYPE_IDENTIFIER
     { yylhs.value.as < std::string > () = "TYPE-IDENTIFIER"; }
-#line 8026 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 11:
-#line 360 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 11: // UsefulObjectClassReference: ABSTRACT_SYNTAX
     { yylhs.value.as < std::string > () = "TYPE-IDENTIFIER"; }
-#line 8032 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 12:
-#line 364 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 12: // ObjectClassAssignment: typereference "::=" ObjectClass
     { yylhs.value.as < Assignment > () = Assignment{yystack_[2].value.as < std::string > (), yystack_[0].value.as < ObjectClassAssignment > ()}; }
-#line 8038 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 13:
-#line 368 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 13: // ObjectClass: DefinedObjectClass
     { feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClass"); }
-#line 8044 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 14:
-#line 370 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 14: // ObjectClass: ObjectClassDefn
     { yylhs.value.as < ObjectClassAssignment > () = yystack_[0].value.as < ObjectClassAssignment > (); }
-#line 8050 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 15:
-#line 375 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 15: // ObjectClassDefn: CLASS "{" FieldSpecList "}" WithSyntaxSpec
     { yylhs.value.as < ObjectClassAssignment > () = {yystack_[2].value.as < std::vector<ClassField> > ()}; }
-#line 8056 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 16:
-#line 379 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 16: // FieldSpecList: FieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[0].value.as < std::vector<ClassField> > (); }
-#line 8062 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 17:
-#line 381 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 17: // FieldSpecList: FieldSpecList "," FieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[2].value.as < std::vector<ClassField> > (); yylhs.value.as < std::vector<ClassField> > ().insert(yylhs.value.as < std::vector<ClassField> > ().end(), yystack_[0].value.as < std::vector<ClassField> > ().begin(), yystack_[0].value.as < std::vector<ClassField> > ().end()); }
-#line 8068 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 18:
-#line 385 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 18: // FieldSpec: TypeFieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[0].value.as < std::vector<ClassField> > (); }
-#line 8074 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 19:
-#line 387 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 19: // FieldSpec: FixedTypeValueFieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[0].value.as < std::vector<ClassField> > (); }
-#line 8080 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 24:
-#line 395 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 24: // FieldName: typefieldreference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8086 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 25:
-#line 397 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 25: // FieldName: valuefieldreference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8092 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 26:
-#line 405 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 26: // FieldNameList: FieldName
     { yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8098 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 27:
-#line 407 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 27: // FieldNameList: FieldNameList "." FieldName
     { yylhs.value.as < std::vector<std::string> > () = yystack_[2].value.as < std::vector<std::string> > (); yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8104 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 28:
-#line 411 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 28: // TypeFieldSpec: OneOrManyTypeFieldReference TypeOptionalitySpec
     { for (const std::string& name : yystack_[1].value.as < std::vector<std::string> > ()) yylhs.value.as < std::vector<ClassField> > ().push_back(ClassField{name, TypeField{}}); }
-#line 8110 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 29:
-#line 415 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 29: // OneOrManyTypeFieldReference: typefieldreference
     { yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8116 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 30:
-#line 417 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 30: // OneOrManyTypeFieldReference: OneOrManyTypeFieldReference typefieldreference
     { yylhs.value.as < std::vector<std::string> > () = yystack_[1].value.as < std::vector<std::string> > (); yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8122 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 37:
-#line 431 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 37: // FixedTypeValueFieldSpec: valuefieldreference Type OptionalUnique ValueOptionalitySpec
     { yylhs.value.as < std::vector<ClassField> > ().push_back(ClassField{yystack_[3].value.as < std::string > (), FixedTypeValueField{yystack_[2].value.as < Type > ()}}); }
-#line 8128 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 86:
-#line 546 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 86: // ObjectSetAssignment: typereference DefinedObjectSet "::=" ObjectSet
     { yylhs.value.as < Assignment > () = Assignment{yystack_[3].value.as < std::string > (), ObjectSetAssignment{}}; }
-#line 8134 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 93:
-#line 566 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 93: // ObjectClassFieldType: UsefulObjectClassReference "." FieldNameList
     { yylhs.value.as < ObjectClassFieldType > () = {DefinedType{{}, }, yystack_[0].value.as < std::vector<std::string> > ()}; }
-#line 8140 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 94:
-#line 568 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 94: // ObjectClassFieldType: typereference "." FieldNameList
     { yylhs.value.as < ObjectClassFieldType > () = {DefinedType{{}, yystack_[2].value.as < std::string > ()}, yystack_[0].value.as < std::vector<std::string> > ()}; }
-#line 8146 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 95:
-#line 575 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 95: // ParameterizedAssignment: ParameterizedTypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8152 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 96:
-#line 577 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 96: // ParameterizedAssignment: ParameterizedValueAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8158 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 97:
-#line 579 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 97: // ParameterizedAssignment: ParameterizedValueSetTypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8164 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 98:
-#line 581 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 98: // ParameterizedAssignment: ParameterizedObjectClassAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8170 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 99:
-#line 588 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 99: // ParameterizedTypeAssignment: typereference ParameterList "::=" Type
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), TypeAssignment{yystack_[0].value.as < Type > ()}, {}, yystack_[2].value.as < std::vector<Parameter> > () }; }
-#line 8176 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 100:
-#line 592 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 100: // ParameterizedValueAssignment: valuereference ParameterList Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[4].value.as < std::string > (), ValueAssignment{} }; }
-#line 8182 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 101:
-#line 596 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 101: // ParameterizedValueSetTypeAssignment: typereference ParameterList Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[4].value.as < std::string > (), ValueAssignment{} }; }
-#line 8188 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 102:
-#line 600 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 102: // ParameterizedObjectClassAssignment: typereference ParameterList "::=" ObjectClass
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), ObjectClassAssignment{} }; }
-#line 8194 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 103:
-#line 612 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 103: // ParameterList: "{" ParameterSeries "}"
     { yylhs.value.as < std::vector<Parameter> > () = yystack_[1].value.as < std::vector<Parameter> > (); }
-#line 8200 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 104:
-#line 616 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 104: // ParameterSeries: Parameter
     { yylhs.value.as < std::vector<Parameter> > ().push_back(yystack_[0].value.as < Parameter > ()); }
-#line 8206 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 105:
-#line 618 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 105: // ParameterSeries: ParameterSeries "," Parameter
     { yylhs.value.as < std::vector<Parameter> > () = yystack_[2].value.as < std::vector<Parameter> > (); yylhs.value.as < std::vector<Parameter> > ().push_back(yystack_[0].value.as < Parameter > ()); }
-#line 8212 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 106:
-#line 622 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 106: // Parameter: ParamGovernor ":" Reference
     { yylhs.value.as < Parameter > () = Parameter{yystack_[2].value.as < Type > (), yystack_[0].value.as < std::string > ()}; }
-#line 8218 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 107:
-#line 624 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 107: // Parameter: Reference
     { yylhs.value.as < Parameter > () = Parameter{{}, yystack_[0].value.as < std::string > ()}; }
-#line 8224 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 108:
-#line 628 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 108: // ParamGovernor: Governor
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8230 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 109:
-#line 630 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 109: // ParamGovernor: Reference
     { yylhs.value.as < Type > () = DefinedType{{}, yystack_[0].value.as < std::string > ()}; }
-#line 8236 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 110:
-#line 634 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 110: // Governor: Type
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8242 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 111:
-#line 636 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 111: // Governor: DefinedObjectClass
     { }
-#line 8248 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 114:
-#line 673 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 114: // InstanceOfType: INSTANCE OF DefinedObjectClass
     { feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
-#line 8254 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 116:
-#line 682 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 116: // SimpleDefinedType: typereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8260 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 122:
-#line 695 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 122: // UserDefinedConstraint: CONSTRAINED BY "{" UserDefinedConstraintParameter "}"
     { feature_not_implemented(context_.location, context_.asn1_tree, "UserDefinedConstraint", "Not yet checking contraints. "); }
-#line 8266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 130:
-#line 709 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 130: // TableConstraint: ObjectSet
     { std::cerr << "Simple constraint\n"; }
-#line 8272 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 131:
-#line 711 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 131: // TableConstraint: ObjectSet "{" AtNotationList "}"
     { std::cerr << "Relation constraint\n"; }
-#line 8278 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 144:
-#line 753 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    {
+  case 144: // ModuleIdentifier: modulereference DefinitiveIdentification
+{
     yylhs.value.as < std::string > () = yystack_[1].value.as < std::string > ();
 }
-#line 8286 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 159:
-#line 792 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 159: // TagDefault: EXPLICIT TAGS
     { yylhs.value.as < TaggingMode > () = TaggingMode::explicit_; }
-#line 8292 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 160:
-#line 794 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 160: // TagDefault: IMPLICIT TAGS
     { yylhs.value.as < TaggingMode > () = TaggingMode::implicit; }
-#line 8298 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 161:
-#line 796 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 161: // TagDefault: AUTOMATIC TAGS
     { yylhs.value.as < TaggingMode > () = TaggingMode::automatic; }
-#line 8304 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 162:
-#line 798 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 162: // TagDefault: %empty
     { yylhs.value.as < TaggingMode > () = TaggingMode::explicit_; }
-#line 8310 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 165:
-#line 806 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 165: // ModuleBody: Exports Imports AssignmentList
     { yylhs.value.as < Module > () = Module{ {}, TaggingMode(), yystack_[2].value.as < std::vector<Export> > (), yystack_[1].value.as < std::vector<Import> > (), yystack_[0].value.as < std::vector<Assignment> > ()}; }
-#line 8316 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 166:
-#line 808 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 166: // ModuleBody: %empty
     { }
-#line 8322 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 172:
-#line 821 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 172: // Imports: IMPORTS SymbolsImported ";"
     { yylhs.value.as < std::vector<Import> > () = yystack_[1].value.as < std::vector<Import> > (); }
-#line 8328 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 174:
-#line 826 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 174: // SymbolsImported: SymbolsFromModuleList
     { yylhs.value.as < std::vector<Import> > () = yystack_[0].value.as < std::vector<Import> > (); }
-#line 8334 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 176:
-#line 831 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 176: // SymbolsFromModuleList: SymbolsFromModule
     { yylhs.value.as < std::vector<Import> > ().push_back(yystack_[0].value.as < Import > ()); }
-#line 8340 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 177:
-#line 833 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 177: // SymbolsFromModuleList: SymbolsFromModuleList SymbolsFromModule
     { yylhs.value.as < std::vector<Import> > () = yystack_[1].value.as < std::vector<Import> > (); yylhs.value.as < std::vector<Import> > ().push_back(yystack_[0].value.as < Import > ()); }
-#line 8346 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 178:
-#line 837 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 178: // SymbolsFromModule: SymbolList FROM GlobalModuleReference
     { yylhs.value.as < Import > () = Import{ yystack_[0].value.as < std::string > (), {}, {} };
       for (const std::string& ref: yystack_[2].value.as < std::vector<std::string> > ())
       {
@@ -8362,1267 +9099,854 @@ namespace yy {
         }
       }
     }
-#line 8364 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 179:
-#line 853 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 179: // GlobalModuleReference: modulereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8370 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 180:
-#line 855 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 180: // GlobalModuleReference: modulereference ObjectIdentifierValue
     { yylhs.value.as < std::string > () = yystack_[1].value.as < std::string > (); }
-#line 8376 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 181:
-#line 861 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 181: // SymbolList: Symbol
     { yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8382 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 182:
-#line 863 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 182: // SymbolList: SymbolList "," Symbol
     { yylhs.value.as < std::vector<std::string> > () = yystack_[2].value.as < std::vector<std::string> > (); yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8388 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 183:
-#line 867 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 183: // Symbol: Reference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8394 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 184:
-#line 871 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 184: // Reference: typereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8400 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 185:
-#line 873 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 185: // Reference: typereference "{" "}"
     { yylhs.value.as < std::string > () = yystack_[2].value.as < std::string > (); }
-#line 8406 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 186:
-#line 875 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 186: // Reference: valuereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8412 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 187:
-#line 884 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 187: // AssignmentList: Assignment
     { yylhs.value.as < std::vector<Assignment> > ().push_back(yystack_[0].value.as < Assignment > ()); }
-#line 8418 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 188:
-#line 886 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 188: // AssignmentList: Assignment AssignmentList
     { yylhs.value.as < std::vector<Assignment> > () = yystack_[0].value.as < std::vector<Assignment> > (); yylhs.value.as < std::vector<Assignment> > ().push_back(yystack_[1].value.as < Assignment > ()); }
-#line 8424 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 189:
-#line 890 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 189: // Assignment: TypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8430 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 190:
-#line 892 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 190: // Assignment: ValueAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8436 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 191:
-#line 894 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 191: // Assignment: ObjectClassAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8442 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 192:
-#line 896 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 192: // Assignment: ValueSetTypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8448 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 193:
-#line 899 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 193: // Assignment: ObjectSetAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8454 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 194:
-#line 901 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 194: // Assignment: ParameterizedAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8460 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 195:
-#line 905 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 195: // DefinedType: ExternalTypeReference
     { yylhs.value.as < DefinedType > () = yystack_[0].value.as < DefinedType > (); }
-#line 8466 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 196:
-#line 907 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 196: // DefinedType: typereference
     { yylhs.value.as < DefinedType > () = DefinedType{absl::nullopt, yystack_[0].value.as < std::string > (), {}}; }
-#line 8472 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 197:
-#line 909 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 197: // DefinedType: ParameterizedType
     { yylhs.value.as < DefinedType > () = yystack_[0].value.as < DefinedType > (); }
-#line 8478 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 198:
-#line 915 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 198: // DefinedValue: valuereference
     { yylhs.value.as < DefinedValue > () = DefinedValue{yystack_[0].value.as < std::string > ()}; }
-#line 8484 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 200:
-#line 920 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 200: // ParameterizedType: SimpleDefinedType "{" ActualParameterList "}"
     { yylhs.value.as < DefinedType > () = DefinedType{ absl::nullopt, yystack_[3].value.as < std::string > (), yystack_[1].value.as < std::vector<Type> > ()}; }
-#line 8490 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 202:
-#line 927 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 202: // ActualParameterList: ActualParameter
     { yylhs.value.as < std::vector<Type> > ().push_back(yystack_[0].value.as < Type > ()); }
-#line 8496 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 203:
-#line 929 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 203: // ActualParameterList: ActualParameter "," ActualParameterList
     { yylhs.value.as < std::vector<Type> > () = yystack_[0].value.as < std::vector<Type> > (); yylhs.value.as < std::vector<Type> > ().push_back(yystack_[2].value.as < Type > ()); }
-#line 8502 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 204:
-#line 933 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 204: // ActualParameter: Type
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8508 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 205:
-#line 935 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 205: // ActualParameter: ValueWithoutTypeIdentifier
     { std::cerr << "Warning: Not yet dealing with value paramaters\n"; }
-#line 8514 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 207:
-#line 948 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 207: // ExternalTypeReference: typereference "." typereference
     { yylhs.value.as < DefinedType > () = DefinedType{yystack_[2].value.as < std::string > (), yystack_[0].value.as < std::string > (), {}}; }
-#line 8520 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 209:
-#line 977 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 209: // TypeAssignment: typereference "::=" Type
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[2].value.as < std::string > (), TypeAssignment{yystack_[0].value.as < Type > ()}, {} }; }
-#line 8526 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 210:
-#line 981 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 210: // ValueAssignment: valuereference Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), ValueAssignment{yystack_[2].value.as < Type > (), yystack_[0].value.as < Value > ()}, {} }; }
-#line 8532 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 211:
-#line 985 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 211: // ValueSetTypeAssignment: typereference Type "::=" ValueSet
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), TypeAssignment{yystack_[2].value.as < Type > ()}, {} }; }
-#line 8538 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 212:
-#line 989 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 212: // Type: BuiltinType
     { yylhs.value.as < Type > () = yystack_[0].value.as < BuiltinType > (); }
-#line 8544 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 213:
-#line 991 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 213: // Type: ConstrainedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8550 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 214:
-#line 993 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 214: // Type: DefinedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < DefinedType > (); }
-#line 8556 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 215:
-#line 995 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 215: // Type: SelectionType
     { feature_not_implemented(context_.location, context_.asn1_tree, "SelectionType"); }
-#line 8562 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 216:
-#line 997 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 216: // Type: TypeFromObject
     { feature_not_implemented(context_.location, context_.asn1_tree, "TypeFromObject"); }
-#line 8568 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 217:
-#line 1001 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = AnyType(); }
-#line 8574 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 217: // BuiltinType: ANY
+        { yylhs.value.as < BuiltinType > () = AnyType(); }
     break;
 
-  case 218:
-#line 1002 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BitStringType > (); }
-#line 8580 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 218: // BuiltinType: BitStringType
+                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BitStringType > (); }
     break;
 
-  case 219:
-#line 1003 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BooleanType > (); }
-#line 8586 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 219: // BuiltinType: BooleanType
+                { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BooleanType > (); }
     break;
 
-  case 220:
-#line 1004 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < CharacterStringType > (); }
-#line 8592 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 220: // BuiltinType: CharacterStringType
+                        { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < CharacterStringType > (); }
     break;
 
-  case 221:
-#line 1005 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ChoiceType > (); }
-#line 8598 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 221: // BuiltinType: ChoiceType
+               { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ChoiceType > (); }
     break;
 
-  case 222:
-#line 1006 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateType"); }
-#line 8604 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 222: // BuiltinType: DateType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateType"); }
     break;
 
-  case 223:
-#line 1007 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateTimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateTimeType"); }
-#line 8610 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 223: // BuiltinType: DateTimeType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateTimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateTimeType"); }
     break;
 
-  case 224:
-#line 1008 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DurationType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DurationType"); }
-#line 8616 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 224: // BuiltinType: DurationType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DurationType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DurationType"); }
     break;
 
-  case 225:
-#line 1009 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EmbeddedPDVType > (); feature_not_implemented(context_.location, context_.asn1_tree, "EmbeddedPDVType"); }
-#line 8622 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 225: // BuiltinType: EmbeddedPDVType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EmbeddedPDVType > (); feature_not_implemented(context_.location, context_.asn1_tree, "EmbeddedPDVType"); }
     break;
 
-  case 226:
-#line 1010 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EnumeratedType > (); }
-#line 8628 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 226: // BuiltinType: EnumeratedType
+                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EnumeratedType > (); }
     break;
 
-  case 227:
-#line 1011 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ExternalType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ExternalType"); }
-#line 8634 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 227: // BuiltinType: ExternalType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ExternalType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ExternalType"); }
     break;
 
-  case 228:
-#line 1012 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = GeneralizedTimeType(); }
-#line 8640 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 228: // BuiltinType: GeneralizedTime
+                    { yylhs.value.as < BuiltinType > () = GeneralizedTimeType(); }
     break;
 
-  case 229:
-#line 1013 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < InstanceOfType > (); feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
-#line 8646 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 229: // BuiltinType: InstanceOfType
+                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < InstanceOfType > (); feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
     break;
 
-  case 230:
-#line 1014 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IntegerType > (); }
-#line 8652 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 230: // BuiltinType: IntegerType
+                { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IntegerType > (); }
     break;
 
-  case 231:
-#line 1015 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "IRIType"); }
-#line 8658 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 231: // BuiltinType: IRIType
+            { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "IRIType"); }
     break;
 
-  case 232:
-#line 1016 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < NullType > (); }
-#line 8664 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 232: // BuiltinType: NullType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < NullType > (); }
     break;
 
-  case 233:
-#line 1017 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectClassFieldType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClassFieldType"); }
-#line 8670 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 233: // BuiltinType: ObjectClassFieldType
+                         { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectClassFieldType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClassFieldType"); }
     break;
 
-  case 234:
-#line 1018 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = ObjectDescriptorType(); }
-#line 8676 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 234: // BuiltinType: ObjectDescriptor
+                     { yylhs.value.as < BuiltinType > () = ObjectDescriptorType(); }
     break;
 
-  case 235:
-#line 1019 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectIdentifierType > (); }
-#line 8682 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 235: // BuiltinType: ObjectIdentifierType
+                         { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectIdentifierType > (); }
     break;
 
-  case 236:
-#line 1020 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < OctetStringType > (); }
-#line 8688 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 236: // BuiltinType: OctetStringType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < OctetStringType > (); }
     break;
 
-  case 237:
-#line 1021 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RealType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RealType"); }
-#line 8694 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 237: // BuiltinType: RealType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RealType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RealType"); }
     break;
 
-  case 238:
-#line 1022 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeIRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeIRIType"); }
-#line 8700 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 238: // BuiltinType: RelativeIRIType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeIRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeIRIType"); }
     break;
 
-  case 239:
-#line 1023 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeOIDType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeOIDType"); }
-#line 8706 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 239: // BuiltinType: RelativeOIDType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeOIDType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeOIDType"); }
     break;
 
-  case 240:
-#line 1024 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceType > (); }
-#line 8712 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 240: // BuiltinType: SequenceType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceType > (); }
     break;
 
-  case 241:
-#line 1025 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceOfType > (); }
-#line 8718 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 241: // BuiltinType: SequenceOfType
+                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceOfType > (); }
     break;
 
-  case 242:
-#line 1026 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetType > (); }
-#line 8724 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 242: // BuiltinType: SetType
+            { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetType > (); }
     break;
 
-  case 243:
-#line 1027 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetOfType > (); }
-#line 8730 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 243: // BuiltinType: SetOfType
+              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetOfType > (); }
     break;
 
-  case 244:
-#line 1028 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < PrefixedType > (); }
-#line 8736 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 244: // BuiltinType: PrefixedType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < PrefixedType > (); }
     break;
 
-  case 245:
-#line 1029 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeType"); }
-#line 8742 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 245: // BuiltinType: TimeType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeType"); }
     break;
 
-  case 246:
-#line 1030 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeOfDayType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeOfDayType"); }
-#line 8748 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 246: // BuiltinType: TimeOfDayType
+                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeOfDayType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeOfDayType"); }
     break;
 
-  case 247:
-#line 1031 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = UTCTimeType(); feature_not_implemented(context_.location, context_.asn1_tree, "UTCTime"); }
-#line 8754 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 247: // BuiltinType: UTCTime
+            { yylhs.value.as < BuiltinType > () = UTCTimeType(); feature_not_implemented(context_.location, context_.asn1_tree, "UTCTime"); }
     break;
 
-  case 248:
-#line 1035 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 248: // NamedType: identifier Type
     { yylhs.value.as < NamedType > () = NamedType{ yystack_[1].value.as < std::string > (), yystack_[0].value.as < Type > () }; }
-#line 8760 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 249:
-#line 1039 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 249: // ValueWithoutTypeIdentifier: BooleanValue
     { std::cerr << std::string("Warning: Unhandled field: BooleanValue\n"); }
-#line 8766 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 250:
-#line 1041 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 250: // ValueWithoutTypeIdentifier: IRIValue
     { std::cerr << std::string("Warning: Unhandled field: IRIValue\n"); }
-#line 8772 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 251:
-#line 1043 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 251: // ValueWithoutTypeIdentifier: ASN_NULL
     { std::cerr << std::string("Warning: Unhandled field: ASN_NULL\n"); }
-#line 8778 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 252:
-#line 1045 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 252: // ValueWithoutTypeIdentifier: TimeValue
     { std::cerr << std::string("Warning: Unhandled field: TimeValue\n"); }
-#line 8784 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 253:
-#line 1047 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 253: // ValueWithoutTypeIdentifier: bstring
     { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 8790 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 254:
-#line 1049 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 254: // ValueWithoutTypeIdentifier: hstring
     { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 8796 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 255:
-#line 1051 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 255: // ValueWithoutTypeIdentifier: cstring
     { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 8802 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 256:
-#line 1053 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 256: // ValueWithoutTypeIdentifier: CONTAINING Value
     { std::cerr << std::string("Warning: Unhandled field: CONTAINING\n"); }
-#line 8808 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 257:
-#line 1055 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 257: // ValueWithoutTypeIdentifier: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
-#line 8814 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 258:
-#line 1057 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 258: // ValueWithoutTypeIdentifier: GENERIC_IDENTIFIER_LOWERCASE "(" number ")"
     { yylhs.value.as < Value > ().value_selection = NamedNumber{yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > ()}; }
-#line 8820 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 260:
-#line 1060 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 260: // ValueWithoutTypeIdentifier: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
-#line 8826 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 261:
-#line 1062 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 261: // ValueWithoutTypeIdentifier: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
-#line 8832 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 262:
-#line 1064 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 262: // ValueWithoutTypeIdentifier: ObjectClassFieldType
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
-#line 8838 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 263:
-#line 1066 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 263: // ValueWithoutTypeIdentifier: Value ":" Value
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
-#line 8844 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 268:
-#line 1074 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 268: // ValueWithoutTypeIdentifier: "{" SequenceOfValues "}"
     { yylhs.value.as < Value > ().value_selection = yystack_[1].value.as < std::vector<Value> > (); }
-#line 8850 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 269:
-#line 1076 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 269: // ValueWithoutTypeIdentifier: ValueChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueChoice\n"); }
-#line 8856 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 270:
-#line 1078 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 270: // ValueWithoutTypeIdentifier: OPTIONAL
     { std::cerr << std::string("Warning: Unhandled field: OPTIONAL\n"); }
-#line 8862 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 271:
-#line 1080 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 271: // ValueWithoutTypeIdentifier: ValueCommaListChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
-#line 8868 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 272:
-#line 1082 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 272: // ValueWithoutTypeIdentifier: BY
     { std::cerr << std::string("Warning: Unhandled field: BY\n"); }
-#line 8874 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 273:
-#line 1084 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 273: // ValueWithoutTypeIdentifier: WITH
     { std::cerr << std::string("Warning: Unhandled field: WITH\n"); }
-#line 8880 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 274:
-#line 1089 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 274: // Value: ValueWithoutTypeIdentifier
     { yylhs.value.as < Value > () = yystack_[0].value.as < Value > (); }
-#line 8886 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 275:
-#line 1091 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 275: // Value: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
-#line 8892 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 282:
-#line 1107 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 282: // SequenceOfValues: Value
     { yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
-#line 8898 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 283:
-#line 1109 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 283: // SequenceOfValues: SequenceOfValues Value
     { yylhs.value.as < std::vector<Value> > () = yystack_[1].value.as < std::vector<Value> > (); yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
-#line 8904 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 285:
-#line 1120 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 285: // BooleanValue: TRUE
     { yylhs.value.as < BooleanValue > () = {true}; }
-#line 8910 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 286:
-#line 1122 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 286: // BooleanValue: FALSE
     { yylhs.value.as < BooleanValue > () = {false}; }
-#line 8916 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 287:
-#line 1126 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 287: // IntegerType: INTEGER
     { yylhs.value.as < IntegerType > () = IntegerType{{}}; }
-#line 8922 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 288:
-#line 1128 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 288: // IntegerType: INTEGER "{" NamedNumberList "}"
     { yylhs.value.as < IntegerType > () = IntegerType{yystack_[1].value.as < std::vector<NamedNumber> > ()}; }
-#line 8928 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 289:
-#line 1132 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 289: // NamedNumberList: NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = {yystack_[0].value.as < NamedNumber > ()}; }
-#line 8934 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 290:
-#line 1134 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 290: // NamedNumberList: NamedNumberList "," NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = yystack_[2].value.as < std::vector<NamedNumber> > (); yylhs.value.as < std::vector<NamedNumber> > ().push_back(yystack_[0].value.as < NamedNumber > ()); }
-#line 8940 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 291:
-#line 1138 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 291: // NamedNumber: identifier "(" SignedNumber ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > () }; }
-#line 8946 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 292:
-#line 1140 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 292: // NamedNumber: identifier "(" DefinedValue ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), 0 }; }
-#line 8952 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 293:
-#line 1144 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 293: // SignedNumber: number
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
-#line 8958 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 294:
-#line 1146 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 294: // SignedNumber: negativenumber
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
-#line 8964 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 295:
-#line 1150 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 295: // EnumeratedType: ENUMERATED "{" Enumerations "}"
     { yylhs.value.as < EnumeratedType > () = yystack_[1].value.as < EnumeratedType > (); }
-#line 8970 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 296:
-#line 1154 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 296: // Enumerations: Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[0].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = false; }
-#line 8977 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 297:
-#line 1157 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 297: // Enumerations: Enumeration "," "..." ExceptionSpec
     { yylhs.value.as < EnumeratedType > () = yystack_[3].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true; }
-#line 8984 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 298:
-#line 1160 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 298: // Enumerations: Enumeration "," "..." ExceptionSpec "," Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[5].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true;
       yylhs.value.as < EnumeratedType > ().enum_values.insert(yylhs.value.as < EnumeratedType > ().enum_values.end(), yystack_[0].value.as < EnumeratedType > ().enum_values.begin(), yystack_[0].value.as < EnumeratedType > ().enum_values.end()); }
-#line 8992 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 300:
-#line 1167 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 300: // Enumeration: EnumerationItem
     { yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
-#line 8998 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 301:
-#line 1169 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 301: // Enumeration: Enumeration "," EnumerationItem
     { yylhs.value.as < EnumeratedType > () = yystack_[2].value.as < EnumeratedType > (); yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
-#line 9004 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 302:
-#line 1173 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 302: // EnumerationItem: identifier
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < std::string > (); }
-#line 9010 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 303:
-#line 1175 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 303: // EnumerationItem: NamedNumber
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < NamedNumber > ().name;
       yylhs.value.as < EnumerationValue > ().value = yystack_[0].value.as < NamedNumber > ().number; }
-#line 9017 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 305:
-#line 1186 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 305: // BitStringType: BIT STRING
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
-#line 9023 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 306:
-#line 1188 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 306: // BitStringType: BIT STRING "{" NamedBitList "}"
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
-#line 9029 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 313:
-#line 1217 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 313: // SequenceType: SEQUENCE "{" "}"
     { yylhs.value.as < SequenceType > () = SequenceType(); }
-#line 9035 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 314:
-#line 1219 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 314: // SequenceType: SEQUENCE "{" ComponentTypeLists "}"
     { yylhs.value.as < SequenceType > () = SequenceType{yystack_[1].value.as < Collection > ()}; }
-#line 9041 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 315:
-#line 1223 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 315: // ComponentTypeLists: ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > (); }
-#line 9047 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 316:
-#line 1225 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 316: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = yystack_[3].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9054 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 317:
-#line 1228 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 317: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[5].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9062 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 318:
-#line 1232 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 318: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..."
     { yylhs.value.as < Collection > ().components = yystack_[7].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[2].value.as < ComponentTypeList > ().begin(), yystack_[2].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9070 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 319:
-#line 1236 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 319: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..." "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[9].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[4].value.as < ComponentTypeList > ().begin(), yystack_[4].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9079 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 320:
-#line 1241 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 320: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9086 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 321:
-#line 1244 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 321: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList "," "..."
     { yylhs.value.as < Collection > ().components = yystack_[2].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9093 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 322:
-#line 1247 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 322: // ComponentTypeLists: "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9100 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 323:
-#line 1250 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 323: // ComponentTypeLists: "..." ExceptionSpec "," "..."
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9107 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 324:
-#line 1255 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 324: // ComponentTypeList: ComponentType
     { yylhs.value.as < ComponentTypeList > () = ComponentTypeList{yystack_[0].value.as < ComponentType > ()}; }
-#line 9113 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 325:
-#line 1257 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 325: // ComponentTypeList: ComponentTypeList "," ComponentType
     { yystack_[2].value.as < ComponentTypeList > ().push_back(yystack_[0].value.as < ComponentType > ()); yylhs.value.as < ComponentTypeList > () = yystack_[2].value.as < ComponentTypeList > (); }
-#line 9119 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 326:
-#line 1261 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 326: // ComponentType: Type
     { std::cerr << context_.location << " WARNING: unnamed type\n";
       yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[0].value.as < Type > ()}, false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9126 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 327:
-#line 1264 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 327: // ComponentType: Type OPTIONAL
     { std::cerr << context_.location << " WARNING: unnamed type\n";
       yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[1].value.as < Type > ()}, true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9133 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 328:
-#line 1267 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 328: // ComponentType: Type DEFAULT SingleValue
     { yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[2].value.as < Type > ()}, false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_ };
       std::cerr << context_.location << " WARNING: unnamed type\n"; }
-#line 9140 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 329:
-#line 1270 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 329: // ComponentType: NamedType
     { yylhs.value.as < ComponentType > () = ComponentType{yystack_[0].value.as < NamedType > (), false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9146 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 330:
-#line 1272 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 330: // ComponentType: NamedType OPTIONAL
     { yylhs.value.as < ComponentType > () = ComponentType{yystack_[1].value.as < NamedType > (), true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9152 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 331:
-#line 1274 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 331: // ComponentType: NamedType DEFAULT SingleValue
     { yylhs.value.as < ComponentType > () = ComponentType{yystack_[2].value.as < NamedType > (), false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_ }; }
-#line 9158 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 332:
-#line 1276 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 332: // ComponentType: COMPONENTS OF Type
     { yylhs.value.as < ComponentType > () = ComponentType{{}, false, absl::nullopt, yystack_[0].value.as < Type > (), StorageMode::static_}; }
-#line 9164 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 333:
-#line 1288 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 333: // SequenceOfType: SEQUENCE OF Type
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9170 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 334:
-#line 1290 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 334: // SequenceOfType: SEQUENCE OF NamedType
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9176 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 335:
-#line 1294 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 335: // SetType: SET "{" "}"
     { yylhs.value.as < SetType > () = SetType{}; }
-#line 9182 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 336:
-#line 1296 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 336: // SetType: SET "{" ComponentTypeLists "}"
     { yylhs.value.as < SetType > () = SetType{yystack_[1].value.as < Collection > ()}; }
-#line 9188 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 337:
-#line 1300 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 337: // SetOfType: SET OF Type
     { yylhs.value.as < SetOfType > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9194 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 338:
-#line 1302 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 338: // SetOfType: SET OF NamedType
     { yylhs.value.as < SetOfType > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9200 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 339:
-#line 1306 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 339: // ChoiceType: CHOICE "{" AlternativeTypeLists "}"
     { yylhs.value.as < ChoiceType > () = ChoiceType{ yystack_[1].value.as < std::vector<NamedType> > (), StorageMode::static_ }; }
-#line 9206 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 340:
-#line 1310 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 340: // AlternativeTypeLists: RootAlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
-#line 9212 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 341:
-#line 1314 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 341: // RootAlternativeTypeList: AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
-#line 9218 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 342:
-#line 1316 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 342: // RootAlternativeTypeList: AlternativeTypeList "," "..."
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
-#line 9224 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 343:
-#line 1318 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 343: // RootAlternativeTypeList: AlternativeTypeList "," "..." "," AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
-#line 9230 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 344:
-#line 1322 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 344: // AlternativeTypeList: NamedType
     { yylhs.value.as < std::vector<NamedType> > () = std::vector<NamedType> { yystack_[0].value.as < NamedType > () }; }
-#line 9236 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 345:
-#line 1324 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 345: // AlternativeTypeList: AlternativeTypeList "," NamedType
     { yystack_[2].value.as < std::vector<NamedType> > ().push_back( yystack_[0].value.as < NamedType > () ); yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
-#line 9242 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 347:
-#line 1334 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 347: // PrefixedType: TaggedType
     { yylhs.value.as < PrefixedType > () = PrefixedType(yystack_[0].value.as < TaggedType > ()); }
-#line 9248 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 348:
-#line 1338 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 348: // TaggedType: Tag Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[1].value.as < Tag > (), TaggingMode::automatic, yystack_[0].value.as < Type > () }; }
-#line 9254 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 349:
-#line 1340 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 349: // TaggedType: Tag IMPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::implicit, yystack_[0].value.as < Type > () }; }
-#line 9260 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 350:
-#line 1342 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 350: // TaggedType: Tag EXPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::explicit_, yystack_[0].value.as < Type > () }; }
-#line 9266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 351:
-#line 1346 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 351: // Tag: "[" EncodingReference Class ClassNumber "]"
     { yylhs.value.as < Tag > () = Tag{ yystack_[2].value.as < Class > (), yystack_[1].value.as < int > () }; }
-#line 9272 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 354:
-#line 1354 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 354: // ClassNumber: number
     { yylhs.value.as < int > () = yystack_[0].value.as < int64_t > (); }
-#line 9278 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 356:
-#line 1359 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 356: // Class: UNIVERSAL
     { yylhs.value.as < Class > () = Class::universal; }
-#line 9284 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 357:
-#line 1361 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 357: // Class: APPLICATION
     { yylhs.value.as < Class > () = Class::application; }
-#line 9290 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 358:
-#line 1363 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 358: // Class: PRIVATE
     { yylhs.value.as < Class > () = Class::private_; }
-#line 9296 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 359:
-#line 1365 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 359: // Class: %empty
     { yylhs.value.as < Class > () = Class::context_specific; }
-#line 9302 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 361:
-#line 1378 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 361: // ObjectIdentifierValue: "{" ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
-#line 9308 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 362:
-#line 1380 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 362: // ObjectIdentifierValue: "{" DefinedValue ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
-#line 9314 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 363:
-#line 1384 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 363: // ObjIdComponentsList: ObjIdComponents
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[0].value.as < ObjectIdComponentValue > ()); }
-#line 9320 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 364:
-#line 1386 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 364: // ObjIdComponentsList: ObjIdComponents ObjIdComponentsList
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[0].value.as < std::vector<ObjectIdComponentValue> > (); yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[1].value.as < ObjectIdComponentValue > ()); }
-#line 9326 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 365:
-#line 1390 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 365: // ObjIdComponents: NameForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
-#line 9332 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 366:
-#line 1392 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 366: // ObjIdComponents: NumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
-#line 9338 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 367:
-#line 1394 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 367: // ObjIdComponents: NameAndNumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
-#line 9344 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 368:
-#line 1398 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 368: // NameForm: identifier
     { yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[0].value.as < std::string > (); }
-#line 9350 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 369:
-#line 1402 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 369: // NumberForm: number
     { yylhs.value.as < ObjectIdComponentValue > ().value = yystack_[0].value.as < int64_t > (); }
-#line 9356 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 371:
-#line 1407 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 371: // NameAndNumberForm: identifier "(" NumberForm ")"
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[1].value.as < ObjectIdComponentValue > (); yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[3].value.as < std::string > (); }
-#line 9362 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 389:
-#line 1480 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 389: // CharacterStringType: RestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
-#line 9368 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 390:
-#line 1482 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 390: // CharacterStringType: UnrestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
-#line 9374 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 391:
-#line 1486 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 391: // RestrictedCharacterStringType: BMPString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::bmp_string; }
-#line 9380 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 392:
-#line 1488 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 392: // RestrictedCharacterStringType: GeneralString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::general_string; }
-#line 9386 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 393:
-#line 1490 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 393: // RestrictedCharacterStringType: GraphicString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::graphic_string; }
-#line 9392 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 394:
-#line 1492 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 394: // RestrictedCharacterStringType: IA5String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::ia5_string; }
-#line 9398 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 395:
-#line 1494 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 395: // RestrictedCharacterStringType: ISO646String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::iso646_string; }
-#line 9404 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 396:
-#line 1496 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 396: // RestrictedCharacterStringType: NumericString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::numeric_string; }
-#line 9410 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 397:
-#line 1498 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 397: // RestrictedCharacterStringType: PrintableString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::printable_string; }
-#line 9416 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 398:
-#line 1500 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 398: // RestrictedCharacterStringType: TeletexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::teletex_string; }
-#line 9422 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 399:
-#line 1502 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 399: // RestrictedCharacterStringType: T61String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::t61_string; }
-#line 9428 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 400:
-#line 1504 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 400: // RestrictedCharacterStringType: UniversalString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::universal_string; }
-#line 9434 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 401:
-#line 1506 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 401: // RestrictedCharacterStringType: UTF8String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::utf8_string; }
-#line 9440 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 402:
-#line 1508 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 402: // RestrictedCharacterStringType: VideotexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::videotex_string; }
-#line 9446 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 403:
-#line 1510 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 403: // RestrictedCharacterStringType: VisibleString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::visible_string; }
-#line 9452 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 404:
-#line 1514 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 404: // UnrestrictedCharacterStringType: CHARACTER STRING
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::character_string; }
-#line 9458 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 405:
-#line 1518 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 405: // ConstrainedType: Type Constraint
     { yylhs.value.as < Type > () = yystack_[1].value.as < Type > (); }
-#line 9464 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 406:
-#line 1520 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 406: // ConstrainedType: TypeWithConstraint
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); feature_not_implemented(context_.location, context_.asn1_tree, "TypeWithConstraint", "Not yet checking contraints. ");  }
-#line 9470 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 407:
-#line 1524 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 407: // TypeWithConstraint: SET Constraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9476 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 408:
-#line 1526 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 408: // TypeWithConstraint: SET SizeConstraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9482 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 409:
-#line 1528 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 409: // TypeWithConstraint: SEQUENCE Constraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9488 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 410:
-#line 1530 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 410: // TypeWithConstraint: SEQUENCE SizeConstraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9494 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 411:
-#line 1532 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 411: // TypeWithConstraint: SET Constraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9500 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 412:
-#line 1534 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 412: // TypeWithConstraint: SET SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9506 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 413:
-#line 1536 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 413: // TypeWithConstraint: SEQUENCE Constraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9512 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 414:
-#line 1538 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 414: // TypeWithConstraint: SEQUENCE SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9518 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 415:
-#line 1542 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 415: // Constraint: "(" ConstraintSpec ExceptionSpec ")"
     { feature_not_implemented(context_.location, context_.asn1_tree, "ConstraintSpec", "Not yet checking contraints. "); }
-#line 9524 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 449:
-#line 1613 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 449: // SingleValue: BooleanValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < BooleanValue > (); }
-#line 9530 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 450:
-#line 1616 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 450: // SingleValue: ASN_NULL
     { yylhs.value.as < Value > ().value_selection = NullValue{}; }
-#line 9536 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 451:
-#line 1618 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 451: // SingleValue: TimeValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < TimeValue > (); }
-#line 9542 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 452:
-#line 1620 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 452: // SingleValue: bstring
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
-#line 9548 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 453:
-#line 1622 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 453: // SingleValue: hstring
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
-#line 9554 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 454:
-#line 1624 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 454: // SingleValue: cstring
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
-#line 9560 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 455:
-#line 1626 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 455: // SingleValue: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
-#line 9566 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 456:
-#line 1628 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 456: // SingleValue: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
-#line 9572 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 457:
-#line 1630 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 457: // SingleValue: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
-#line 9578 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 458:
-#line 1632 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 458: // SingleValue: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
-#line 9584 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 497:
-#line 1717 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 497: // typereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9590 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 498:
-#line 1721 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 498: // identifier: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9596 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 499:
-#line 1725 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 499: // valuereference: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9602 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 500:
-#line 1729 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 500: // modulereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9608 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 501:
-#line 1733 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 501: // objectclassreference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9614 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 502:
-#line 1736 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 502: // word: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9620 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
 
-#line 9624 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+
             default:
               break;
             }
@@ -9638,7 +9962,6 @@ namespace yy {
       YY_SYMBOL_PRINT ("-> $$ =", yylhs);
       yypop_ (yylen);
       yylen = 0;
-      YY_STACK_PRINT ();
 
       // Shift the result of the reduction.
       yypush_ (YY_NULLPTR, YY_MOVE (yylhs));
@@ -9654,7 +9977,9 @@ namespace yy {
     if (!yyerrstatus_)
       {
         ++yynerrs_;
-        error (yyla.location, yysyntax_error_ (yystack_[0].state, yyla));
+        context yyctx (*this, yyla);
+        std::string msg = yysyntax_error_ (yyctx);
+        error (yyla.location, YY_MOVE (msg));
       }
 
 
@@ -9665,7 +9990,7 @@ namespace yy {
            error, discard it.  */
 
         // Return failure if at end of input.
-        if (yyla.type_get () == yyeof_)
+        if (yyla.kind () == symbol_kind::S_YYEOF)
           YYABORT;
         else if (!yyla.empty ())
           {
@@ -9691,6 +10016,7 @@ namespace yy {
        this YYERROR.  */
     yypop_ (yylen);
     yylen = 0;
+    YY_STACK_PRINT ();
     goto yyerrlab1;
 
 
@@ -9699,37 +10025,39 @@ namespace yy {
   `-------------------------------------------------------------*/
   yyerrlab1:
     yyerrstatus_ = 3;   // Each real token shifted decrements this.
-    {
-      stack_symbol_type error_token;
-      for (;;)
-        {
-          yyn = yypact_[yystack_[0].state];
-          if (!yy_pact_value_is_default_ (yyn))
-            {
-              yyn += yyterror_;
-              if (0 <= yyn && yyn <= yylast_ && yycheck_[yyn] == yyterror_)
-                {
-                  yyn = yytable_[yyn];
-                  if (0 < yyn)
-                    break;
-                }
-            }
+    // Pop stack until we find a state that shifts the error token.
+    for (;;)
+      {
+        yyn = yypact_[+yystack_[0].state];
+        if (!yy_pact_value_is_default_ (yyn))
+          {
+            yyn += symbol_kind::S_YYerror;
+            if (0 <= yyn && yyn <= yylast_
+                && yycheck_[yyn] == symbol_kind::S_YYerror)
+              {
+                yyn = yytable_[yyn];
+                if (0 < yyn)
+                  break;
+              }
+          }
 
-          // Pop the current state because it cannot handle the error token.
-          if (yystack_.size () == 1)
-            YYABORT;
+        // Pop the current state because it cannot handle the error token.
+        if (yystack_.size () == 1)
+          YYABORT;
 
-          yyerror_range[1].location = yystack_[0].location;
-          yy_destroy_ ("Error: popping", yystack_[0]);
-          yypop_ ();
-          YY_STACK_PRINT ();
-        }
+        yyerror_range[1].location = yystack_[0].location;
+        yy_destroy_ ("Error: popping", yystack_[0]);
+        yypop_ ();
+        YY_STACK_PRINT ();
+      }
+    {
+      stack_symbol_type error_token;
 
       yyerror_range[2].location = yyla.location;
       YYLLOC_DEFAULT (error_token.location, yyerror_range, 2);
 
       // Shift the error token.
-      error_token.state = yyn;
+      error_token.state = state_type (yyn);
       yypush_ ("Shifting", YY_MOVE (error_token));
     }
     goto yynewstate;
@@ -9761,6 +10089,7 @@ namespace yy {
     /* Do not reclaim the symbols of the rule whose action triggered
        this YYABORT or YYACCEPT.  */
     yypop_ (yylen);
+    YY_STACK_PRINT ();
     while (1 < yystack_.size ())
       {
         yy_destroy_ ("Cleanup: popping", yystack_[0]);
@@ -9794,96 +10123,172 @@ namespace yy {
     error (yyexc.location, yyexc.what ());
   }
 
-  // Generate an error message.
+  /* Return YYSTR after stripping away unnecessary quotes and
+     backslashes, so that it's suitable for yyerror.  The heuristic is
+     that double-quoting is unnecessary unless the string contains an
+     apostrophe, a comma, or backslash (other than backslash-backslash).
+     YYSTR is taken from yytname.  */
   std::string
-  asn1_parser::yysyntax_error_ (state_type yystate, const symbol_type& yyla) const
+  asn1_parser::yytnamerr_ (const char *yystr)
   {
-    // Number of reported tokens (one for the "unexpected", one per
-    // "expected").
-    size_t yycount = 0;
-    // Its maximum.
-    enum { YYERROR_VERBOSE_ARGS_MAXIMUM = 5 };
-    // Arguments of yyformat.
-    char const *yyarg[YYERROR_VERBOSE_ARGS_MAXIMUM];
-
-    /* There are many possibilities here to consider:
-       - If this state is a consistent state with a default action, then
-         the only way this function was invoked is if the default action
-         is an error action.  In that case, don't check for expected
-         tokens because there are none.
-       - The only way there can be no lookahead present (in yyla) is
-         if this state is a consistent state with a default action.
-         Thus, detecting the absence of a lookahead is sufficient to
-         determine that there is no unexpected or expected token to
-         report.  In that case, just report a simple "syntax error".
-       - Don't assume there isn't a lookahead just because this state is
-         a consistent state with a default action.  There might have
-         been a previous inconsistent state, consistent state with a
-         non-default action, or user semantic action that manipulated
-         yyla.  (However, yyla is currently not documented for users.)
-       - Of course, the expected token list depends on states to have
-         correct lookahead information, and it depends on the parser not
-         to perform extra reductions after fetching a lookahead from the
-         scanner and before detecting a syntax error.  Thus, state
-         merging (from LALR or IELR) and default reductions corrupt the
-         expected token list.  However, the list is correct for
-         canonical LR with one exception: it will still contain any
-         token that will not be accepted due to an error action in a
-         later state.
-    */
-    if (!yyla.empty ())
-      {
-        int yytoken = yyla.type_get ();
-        yyarg[yycount++] = yytname_[yytoken];
-        int yyn = yypact_[yystate];
-        if (!yy_pact_value_is_default_ (yyn))
-          {
-            /* Start YYX at -YYN if negative to avoid negative indexes in
-               YYCHECK.  In other words, skip the first -YYN actions for
-               this state because they are default actions.  */
-            int yyxbegin = yyn < 0 ? -yyn : 0;
-            // Stay within bounds of both yycheck and yytname.
-            int yychecklim = yylast_ - yyn + 1;
-            int yyxend = yychecklim < yyntokens_ ? yychecklim : yyntokens_;
-            for (int yyx = yyxbegin; yyx < yyxend; ++yyx)
-              if (yycheck_[yyx + yyn] == yyx && yyx != yyterror_
-                  && !yy_table_value_is_error_ (yytable_[yyx + yyn]))
-                {
-                  if (yycount == YYERROR_VERBOSE_ARGS_MAXIMUM)
-                    {
-                      yycount = 1;
-                      break;
-                    }
-                  else
-                    yyarg[yycount++] = yytname_[yyx];
-                }
-          }
-      }
-
-    char const* yyformat = YY_NULLPTR;
-    switch (yycount)
+    if (*yystr == '"')
       {
-#define YYCASE_(N, S)                         \
-        case N:                               \
-          yyformat = S;                       \
-        break
-      default: // Avoid compiler warnings.
-        YYCASE_ (0, YY_("syntax error"));
-        YYCASE_ (1, YY_("syntax error, unexpected %s"));
-        YYCASE_ (2, YY_("syntax error, unexpected %s, expecting %s"));
-        YYCASE_ (3, YY_("syntax error, unexpected %s, expecting %s or %s"));
-        YYCASE_ (4, YY_("syntax error, unexpected %s, expecting %s or %s or %s"));
-        YYCASE_ (5, YY_("syntax error, unexpected %s, expecting %s or %s or %s or %s"));
-#undef YYCASE_
-      }
+        std::string yyr;
+        char const *yyp = yystr;
 
-    std::string yyres;
+        for (;;)
+          switch (*++yyp)
+            {
+            case '\'':
+            case ',':
+              goto do_not_strip_quotes;
+
+            case '\\':
+              if (*++yyp != '\\')
+                goto do_not_strip_quotes;
+              else
+                goto append;
+
+            append:
+            default:
+              yyr += *yyp;
+              break;
+
+            case '"':
+              return yyr;
+            }
+      do_not_strip_quotes: ;
+      }
+
+    return yystr;
+  }
+
+  std::string
+  asn1_parser::symbol_name (symbol_kind_type yysymbol)
+  {
+    return yytnamerr_ (yytname_[yysymbol]);
+  }
+
+
+
+  // asn1_parser::context.
+  asn1_parser::context::context (const asn1_parser& yyparser, const symbol_type& yyla)
+    : yyparser_ (yyparser)
+    , yyla_ (yyla)
+  {}
+
+  int
+  asn1_parser::context::expected_tokens (symbol_kind_type yyarg[], int yyargn) const
+  {
+    // Actual number of expected tokens
+    int yycount = 0;
+
+    const int yyn = yypact_[+yyparser_.yystack_[0].state];
+    if (!yy_pact_value_is_default_ (yyn))
+      {
+        /* Start YYX at -YYN if negative to avoid negative indexes in
+           YYCHECK.  In other words, skip the first -YYN actions for
+           this state because they are default actions.  */
+        const int yyxbegin = yyn < 0 ? -yyn : 0;
+        // Stay within bounds of both yycheck and yytname.
+        const int yychecklim = yylast_ - yyn + 1;
+        const int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
+        for (int yyx = yyxbegin; yyx < yyxend; ++yyx)
+          if (yycheck_[yyx + yyn] == yyx && yyx != symbol_kind::S_YYerror
+              && !yy_table_value_is_error_ (yytable_[yyx + yyn]))
+            {
+              if (!yyarg)
+                ++yycount;
+              else if (yycount == yyargn)
+                return 0;
+              else
+                yyarg[yycount++] = YY_CAST (symbol_kind_type, yyx);
+            }
+      }
+
+    if (yyarg && yycount == 0 && 0 < yyargn)
+      yyarg[0] = symbol_kind::S_YYEMPTY;
+    return yycount;
+  }
+
+
+
+
+
+
+  int
+  asn1_parser::yy_syntax_error_arguments_ (const context& yyctx,
+                                                 symbol_kind_type yyarg[], int yyargn) const
+  {
+    /* There are many possibilities here to consider:
+       - If this state is a consistent state with a default action, then
+         the only way this function was invoked is if the default action
+         is an error action.  In that case, don't check for expected
+         tokens because there are none.
+       - The only way there can be no lookahead present (in yyla) is
+         if this state is a consistent state with a default action.
+         Thus, detecting the absence of a lookahead is sufficient to
+         determine that there is no unexpected or expected token to
+         report.  In that case, just report a simple "syntax error".
+       - Don't assume there isn't a lookahead just because this state is
+         a consistent state with a default action.  There might have
+         been a previous inconsistent state, consistent state with a
+         non-default action, or user semantic action that manipulated
+         yyla.  (However, yyla is currently not documented for users.)
+       - Of course, the expected token list depends on states to have
+         correct lookahead information, and it depends on the parser not
+         to perform extra reductions after fetching a lookahead from the
+         scanner and before detecting a syntax error.  Thus, state merging
+         (from LALR or IELR) and default reductions corrupt the expected
+         token list.  However, the list is correct for canonical LR with
+         one exception: it will still contain any token that will not be
+         accepted due to an error action in a later state.
+    */
+
+    if (!yyctx.lookahead ().empty ())
+      {
+        if (yyarg)
+          yyarg[0] = yyctx.token ();
+        int yyn = yyctx.expected_tokens (yyarg ? yyarg + 1 : yyarg, yyargn - 1);
+        return yyn + 1;
+      }
+    return 0;
+  }
+
+  // Generate an error message.
+  std::string
+  asn1_parser::yysyntax_error_ (const context& yyctx) const
+  {
+    // Its maximum.
+    enum { YYARGS_MAX = 5 };
+    // Arguments of yyformat.
+    symbol_kind_type yyarg[YYARGS_MAX];
+    int yycount = yy_syntax_error_arguments_ (yyctx, yyarg, YYARGS_MAX);
+
+    char const* yyformat = YY_NULLPTR;
+    switch (yycount)
+      {
+#define YYCASE_(N, S)                         \
+        case N:                               \
+          yyformat = S;                       \
+        break
+      default: // Avoid compiler warnings.
+        YYCASE_ (0, YY_("syntax error"));
+        YYCASE_ (1, YY_("syntax error, unexpected %s"));
+        YYCASE_ (2, YY_("syntax error, unexpected %s, expecting %s"));
+        YYCASE_ (3, YY_("syntax error, unexpected %s, expecting %s or %s"));
+        YYCASE_ (4, YY_("syntax error, unexpected %s, expecting %s or %s or %s"));
+        YYCASE_ (5, YY_("syntax error, unexpected %s, expecting %s or %s or %s or %s"));
+#undef YYCASE_
+      }
+
+    std::string yyres;
     // Argument number.
-    size_t yyi = 0;
+    std::ptrdiff_t yyi = 0;
     for (char const* yyp = yyformat; *yyp; ++yyp)
       if (yyp[0] == '%' && yyp[1] == 's' && yyi < yycount)
         {
-          yyres += yytnamerr_ (yyarg[yyi++]);
+          yyres += symbol_name (yyarg[yyi++]);
           ++yyp;
         }
       else
@@ -9989,7 +10394,7 @@ namespace yy {
     -663,  3943,  -663,  -663,   509,  3943
   };
 
-  const unsigned short
+  const short
   asn1_parser::yydefact_[] =
   {
        0,   500,     0,     2,     0,   147,     1,     3,   158,     0,
@@ -10113,7 +10518,7 @@ namespace yy {
   const short
   asn1_parser::yydefgoto_[] =
   {
-      -1,     2,     3,   815,   396,   223,   144,    77,   225,   226,
+       0,     2,     3,   815,   396,   223,   144,    77,   225,   226,
      502,   503,   373,   416,   504,   505,   600,   655,   506,   702,
      507,   508,   699,   509,   652,   510,   660,   662,   858,   859,
      860,   861,   862,   863,   145,   146,   693,   694,   695,   805,
@@ -11158,7 +11563,7 @@ namespace yy {
       -1,    -1,   145
   };
 
-  const unsigned short
+  const short
   asn1_parser::yystos_[] =
   {
        0,   149,   154,   155,   228,   375,     0,   154,    51,   124,
@@ -11251,7 +11656,7 @@ namespace yy {
      186,   137,   125,   129,   290,   137
   };
 
-  const unsigned short
+  const short
   asn1_parser::yyr1_[] =
   {
        0,   153,   154,   154,   155,   156,   157,   157,   157,   158,
@@ -11314,7 +11719,7 @@ namespace yy {
      377,   377,   377,   377,   377,   377,   377,   377,   377
   };
 
-  const unsigned char
+  const signed char
   asn1_parser::yyr2_[] =
   {
        0,     2,     1,     2,    10,     3,     1,     1,     1,     3,
@@ -11378,13 +11783,13 @@ namespace yy {
   };
 
 
-
+#if YYDEBUG || 1
   // YYTNAME[SYMBOL-NUM] -- String name of the symbol SYMBOL-NUM.
-  // First, the terminals, then, starting at \a yyntokens_, nonterminals.
+  // First, the terminals, then, starting at \a YYNTOKENS, nonterminals.
   const char*
   const asn1_parser::yytname_[] =
   {
-  "END_OF_FILE", "error", "$undefined", "comment", "number",
+  "END_OF_FILE", "error", "\"invalid token\"", "comment", "number",
   "negativenumber", "realnumber", "bstring", "xmlbstring", "hstring",
   "xmlhstring", "cstring", "xmlcstring", "simplestring", "xmltstring",
   "psname", "encodingreference", "integerUnicodeLabel",
@@ -11410,7 +11815,7 @@ namespace yy {
   "UniversalString", "UTCTime", "UTF8String", "VideotexString",
   "VisibleString", "WITH", "\"::=\"", "\"...\"", "\"..\"", "\"{\"",
   "\"}\"", "\"(\"", "\")\"", "\"[\"", "\"]\"", "\"<\"", "\">\"", "\"!\"",
-  "\"\\\"\"", "\"&\"", "\"'\"", "\"*\"", "\",\"", "\".\"", "\"-\"",
+  "\"\\\"\"", "\"&\"", "\"\\'\"", "\"*\"", "\",\"", "\".\"", "\"-\"",
   "\"/\"", "\":\"", "\";\"", "\"=\"", "\"@\"", "\"|\"", "\"^\"", "PLUS",
   "STAR", "GENERIC_IDENTIFIER_UPPERCASE", "GENERIC_IDENTIFIER_LOWERCASE",
   "GENERIC_INTEGER", "xmlasn1typename", "$accept", "ModuleDefinitionList",
@@ -11482,9 +11887,11 @@ namespace yy {
   "ExceptionIdentification", "typereference", "identifier",
   "valuereference", "modulereference", "objectclassreference", "word", YY_NULLPTR
   };
+#endif
+
 
 #if YYDEBUG
-  const unsigned short
+  const short
   asn1_parser::yyrline_[] =
   {
        0,   327,   327,   328,   331,   346,   349,   350,   351,   354,
@@ -11547,24 +11954,22 @@ namespace yy {
     1804,  1805,  1806,  1807,  1808,  1809,  1810,  1811,  1812
   };
 
-  // Print the state stack on the debug stream.
   void
-  asn1_parser::yystack_print_ ()
+  asn1_parser::yy_stack_print_ () const
   {
     *yycdebug_ << "Stack now";
     for (stack_type::const_iterator
            i = yystack_.begin (),
            i_end = yystack_.end ();
          i != i_end; ++i)
-      *yycdebug_ << ' ' << i->state;
+      *yycdebug_ << ' ' << int (i->state);
     *yycdebug_ << '\n';
   }
 
-  // Report on the debug stream that the rule \a yyrule is going to be reduced.
   void
-  asn1_parser::yy_reduce_print_ (int yyrule)
+  asn1_parser::yy_reduce_print_ (int yyrule) const
   {
-    unsigned yylno = yyrline_[yyrule];
+    int yylno = yyrline_[yyrule];
     int yynrhs = yyr2_[yyrule];
     // Print the symbols being reduced, and their result.
     *yycdebug_ << "Reducing stack by rule " << yyrule - 1
@@ -11577,10 +11982,8 @@ namespace yy {
 #endif // YYDEBUG
 
 
-
 } // yy
-#line 11581 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:1242
-#line 1814 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:1243
+
 
 
 
@@ -11588,12450 +11991,12560 @@ namespace yy {
 
     asn1_parser::symbol_type yylex(Context& context_)
     {
+        // White space, comments and unknown symbols are skipped in a loop, however many there are
+        for (;;)
+        {
         const char* start = context_.cursor;
         const char* YYMARKER = nullptr;
         context_.location.step();
         // Lexer
 
-#line 11597 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 12003 "asn_compiler.hpp"
 {
-	char yych;
+	unsigned char yych;
 	unsigned int yyaccept = 0;
 	yych = *context_.cursor;
 	switch (yych) {
-	case 0x00:	goto yy2;
-	case 0x08:
-	case '\t':
-	case '\v':
-	case '\f':
-	case ' ':	goto yy6;
-	case '\n':	goto yy8;
-	case '\r':	goto yy10;
-	case '!':	goto yy11;
-	case '"':	goto yy13;
-	case '&':	goto yy15;
-	case '\'':	goto yy16;
-	case '(':	goto yy18;
-	case ')':	goto yy20;
-	case ',':	goto yy22;
-	case '-':	goto yy24;
-	case '.':	goto yy26;
-	case '/':	goto yy28;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy29;
-	case ':':	goto yy32;
-	case ';':	goto yy34;
-	case '<':	goto yy36;
-	case '@':	goto yy38;
-	case 'A':	goto yy40;
-	case 'B':	goto yy42;
-	case 'C':	goto yy43;
-	case 'D':	goto yy44;
-	case 'E':	goto yy45;
-	case 'F':	goto yy46;
-	case 'G':	goto yy47;
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'Q':
-	case 'X':
-	case 'Y':
-	case 'Z':	goto yy48;
-	case 'I':	goto yy50;
-	case 'M':	goto yy51;
-	case 'N':	goto yy52;
-	case 'O':	goto yy53;
-	case 'P':	goto yy54;
-	case 'R':	goto yy55;
-	case 'S':	goto yy56;
-	case 'T':	goto yy57;
-	case 'U':	goto yy58;
-	case 'V':	goto yy59;
-	case 'W':	goto yy60;
-	case '[':	goto yy61;
-	case ']':	goto yy63;
-	case '^':	goto yy65;
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy67;
-	case '{':	goto yy70;
-	case '|':	goto yy72;
-	case '}':	goto yy74;
-	default:	goto yy4;
-	}
-yy2:
+		case 0x00: goto yy1;
+		case 0x08:
+		case '\t':
+		case '\v':
+		case '\f':
+		case ' ': goto yy4;
+		case '\n': goto yy5;
+		case '\r': goto yy6;
+		case '!': goto yy7;
+		case '"': goto yy8;
+		case '&': goto yy9;
+		case '\'': goto yy10;
+		case '(': goto yy11;
+		case ')': goto yy12;
+		case ',': goto yy13;
+		case '-': goto yy14;
+		case '.': goto yy16;
+		case '/': goto yy18;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy19;
+		case ':': goto yy21;
+		case ';': goto yy23;
+		case '<': goto yy24;
+		case '@': goto yy25;
+		case 'A': goto yy26;
+		case 'B': goto yy28;
+		case 'C': goto yy29;
+		case 'D': goto yy30;
+		case 'E': goto yy31;
+		case 'F': goto yy32;
+		case 'G': goto yy33;
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'Q':
+		case 'X':
+		case 'Y':
+		case 'Z': goto yy34;
+		case 'I': goto yy36;
+		case 'M': goto yy37;
+		case 'N': goto yy38;
+		case 'O': goto yy39;
+		case 'P': goto yy40;
+		case 'R': goto yy41;
+		case 'S': goto yy42;
+		case 'T': goto yy43;
+		case 'U': goto yy44;
+		case 'V': goto yy45;
+		case 'W': goto yy46;
+		case '[': goto yy47;
+		case ']': goto yy48;
+		case '^': goto yy49;
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy50;
+		case '{': goto yy52;
+		case '|': goto yy53;
+		case '}': goto yy54;
+		default: goto yy2;
+	}
+yy1:
 	++context_.cursor;
-#line 11716 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1951 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
-#line 11699 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 12105 "asn_compiler.hpp"
+yy2:
+	++context_.cursor;
+yy3:
+#line 1977 "src/compiler/asn_compiler.yacc"
+	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
+#line 12111 "asn_compiler.hpp"
 yy4:
 	++context_.cursor;
+#line 1955 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.location.columns(); continue; }
+#line 12116 "asn_compiler.hpp"
 yy5:
-#line 11742 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
-#line 11705 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy6:
-	++context_.cursor;
-#line 11720 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
-#line 11710 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy8:
 	++context_.cursor;
-#line 11719 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-#line 11715 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy10:
+#line 1954 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); context_.location.lines();   continue; }
+#line 12121 "asn_compiler.hpp"
+yy6:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '\n':	goto yy8;
-	default:	goto yy5;
+		case '\n': goto yy5;
+		default: goto yy3;
 	}
-yy11:
+yy7:
 	++context_.cursor;
-#line 11738 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1973 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCLAMATION_MARK (context_.location); }
-#line 11726 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy13:
-	yych = *++context_.cursor;
-	switch (yych) {
-	case '"':	goto yy76;
-	case '\'':	goto yy78;
-	case '\\':	goto yy79;
-	default:	goto yy13;
-	}
-yy15:
+#line 12132 "asn_compiler.hpp"
+yy8:
+	yyaccept = 0;
+	yych = *(YYMARKER = ++context_.cursor);
+	if (yych <= 0x00) goto yy3;
+	goto yy56;
+yy9:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':	goto yy81;
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy84;
-	default:	goto yy5;
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z': goto yy60;
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy62;
+		default: goto yy3;
 	}
-yy16:
-	yych = *++context_.cursor;
+yy10:
+	yyaccept = 0;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '"':	goto yy76;
-	case '\'':	goto yy87;
-	case '0':
-	case '1':	goto yy16;
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':	goto yy88;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case '\'':
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f': goto yy66;
+		default: goto yy3;
 	}
-yy18:
+yy11:
 	++context_.cursor;
-#line 11728 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1963 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-#line 11826 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy20:
+#line 12228 "asn_compiler.hpp"
+yy12:
 	++context_.cursor;
-#line 11729 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1964 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-#line 11831 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy22:
+#line 12233 "asn_compiler.hpp"
+yy13:
 	++context_.cursor;
-#line 11734 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1969 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-#line 11836 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy24:
+#line 12238 "asn_compiler.hpp"
+yy14:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '-':	goto yy90;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy93;
-	default:	goto yy25;
+		case '-': goto yy68;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy70;
+		default: goto yy15;
 	}
-yy25:
-#line 11735 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy15:
+#line 1970 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
-#line 11856 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy26:
+#line 12258 "asn_compiler.hpp"
+yy16:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '.':	goto yy96;
-	default:	goto yy27;
+		case '.': goto yy72;
+		default: goto yy17;
 	}
-yy27:
-#line 11736 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy17:
+#line 1971 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
-#line 11866 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy28:
-	yych = *++context_.cursor;
+#line 12268 "asn_compiler.hpp"
+yy18:
+	yyaccept = 0;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '*':	goto yy98;
-	default:	goto yy5;
+		case '*': goto yy74;
+		default: goto yy3;
 	}
-yy29:
-	yyaccept = 0;
+yy19:
+	yyaccept = 1;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '.':	goto yy100;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy29;
-	default:	goto yy31;
+		case '.': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy19;
+		default: goto yy20;
 	}
-yy31:
-#line 11702 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy20:
+#line 1937 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 11893 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy32:
-	yyaccept = 1;
+#line 12296 "asn_compiler.hpp"
+yy21:
+	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case ':':	goto yy102;
-	default:	goto yy33;
+		case ':': goto yy76;
+		default: goto yy22;
 	}
-yy33:
-#line 11732 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy22:
+#line 1967 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
-#line 11904 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy34:
+#line 12307 "asn_compiler.hpp"
+yy23:
 	++context_.cursor;
-#line 11733 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1968 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-#line 11909 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy36:
+#line 12312 "asn_compiler.hpp"
+yy24:
 	++context_.cursor;
-#line 11739 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1974 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-#line 11914 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy38:
+#line 12317 "asn_compiler.hpp"
+yy25:
 	++context_.cursor;
-#line 11741 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1976 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-#line 11919 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy40:
-	yyaccept = 2;
+#line 12322 "asn_compiler.hpp"
+yy26:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy104;
-	case 'L':	goto yy105;
-	case 'N':	goto yy106;
-	case 'P':	goto yy107;
-	case 'U':	goto yy108;
-	default:	goto yy49;
+		case 'B': goto yy78;
+		case 'L': goto yy79;
+		case 'N': goto yy80;
+		case 'P': goto yy81;
+		case 'U': goto yy82;
+		default: goto yy35;
 	}
-yy41:
-#line 11710 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy27:
+#line 1945 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 11934 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy42:
-	yyaccept = 2;
+#line 12337 "asn_compiler.hpp"
+yy28:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy109;
-	case 'I':	goto yy110;
-	case 'M':	goto yy111;
-	case 'O':	goto yy112;
-	case 'Y':	goto yy113;
-	default:	goto yy49;
+		case 'E': goto yy83;
+		case 'I': goto yy84;
+		case 'M': goto yy85;
+		case 'O': goto yy86;
+		case 'Y': goto yy87;
+		default: goto yy35;
 	}
-yy43:
-	yyaccept = 2;
+yy29:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'H':	goto yy115;
-	case 'L':	goto yy116;
-	case 'O':	goto yy117;
-	default:	goto yy49;
+		case 'H': goto yy89;
+		case 'L': goto yy90;
+		case 'O': goto yy91;
+		default: goto yy35;
 	}
-yy44:
-	yyaccept = 2;
+yy30:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy118;
-	case 'E':	goto yy119;
-	case 'U':	goto yy120;
-	default:	goto yy49;
+		case 'A': goto yy92;
+		case 'E': goto yy93;
+		case 'U': goto yy94;
+		default: goto yy35;
 	}
-yy45:
-	yyaccept = 2;
+yy31:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy121;
-	case 'N':	goto yy122;
-	case 'X':	goto yy123;
-	default:	goto yy49;
+		case 'M': goto yy95;
+		case 'N': goto yy96;
+		case 'X': goto yy97;
+		default: goto yy35;
 	}
-yy46:
-	yyaccept = 2;
+yy32:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy124;
-	case 'R':	goto yy125;
-	default:	goto yy49;
+		case 'A': goto yy98;
+		case 'R': goto yy99;
+		default: goto yy35;
 	}
-yy47:
-	yyaccept = 2;
+yy33:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy126;
-	case 'r':	goto yy127;
-	default:	goto yy49;
+		case 'e': goto yy100;
+		case 'r': goto yy101;
+		default: goto yy35;
 	}
-yy48:
-	yyaccept = 2;
+yy34:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
-yy49:
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy41;
+yy35:
+	switch (yych) {
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy27;
 	}
-yy50:
-	yyaccept = 2;
+yy36:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy128;
-	case 'D':	goto yy129;
-	case 'M':	goto yy130;
-	case 'N':	goto yy131;
-	case 'S':	goto yy132;
-	default:	goto yy49;
+		case 'A': goto yy102;
+		case 'D': goto yy103;
+		case 'M': goto yy104;
+		case 'N': goto yy105;
+		case 'S': goto yy106;
+		default: goto yy35;
 	}
-yy51:
-	yyaccept = 2;
+yy37:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy133;
-	case 'I':	goto yy134;
-	default:	goto yy49;
+		case 'A': goto yy107;
+		case 'I': goto yy108;
+		default: goto yy35;
 	}
-yy52:
-	yyaccept = 2;
+yy38:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy135;
-	case 'U':	goto yy136;
-	case 'u':	goto yy137;
-	default:	goto yy49;
+		case 'O': goto yy109;
+		case 'U': goto yy110;
+		case 'u': goto yy111;
+		default: goto yy35;
 	}
-yy53:
-	yyaccept = 2;
+yy39:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy138;
-	case 'C':	goto yy139;
-	case 'F':	goto yy140;
-	case 'I':	goto yy142;
-	case 'P':	goto yy143;
-	case 'b':	goto yy144;
-	default:	goto yy49;
+		case 'B': goto yy112;
+		case 'C': goto yy113;
+		case 'F': goto yy114;
+		case 'I': goto yy116;
+		case 'P': goto yy117;
+		case 'b': goto yy118;
+		default: goto yy35;
 	}
-yy54:
-	yyaccept = 2;
+yy40:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy145;
-	case 'D':	goto yy146;
-	case 'L':	goto yy147;
-	case 'R':	goto yy148;
-	case 'r':	goto yy149;
-	default:	goto yy49;
+		case 'A': goto yy119;
+		case 'D': goto yy120;
+		case 'L': goto yy121;
+		case 'R': goto yy122;
+		case 'r': goto yy123;
+		default: goto yy35;
 	}
-yy55:
-	yyaccept = 2;
+yy41:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy150;
-	default:	goto yy49;
+		case 'E': goto yy124;
+		default: goto yy35;
 	}
-yy56:
-	yyaccept = 2;
+yy42:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy151;
-	case 'I':	goto yy152;
-	case 'T':	goto yy153;
-	case 'Y':	goto yy154;
-	default:	goto yy49;
+		case 'E': goto yy125;
+		case 'I': goto yy126;
+		case 'T': goto yy127;
+		case 'Y': goto yy128;
+		default: goto yy35;
 	}
-yy57:
-	yyaccept = 2;
+yy43:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '6':	goto yy155;
-	case 'A':	goto yy156;
-	case 'I':	goto yy157;
-	case 'R':	goto yy158;
-	case 'Y':	goto yy159;
-	case 'e':	goto yy160;
-	default:	goto yy49;
+		case '6': goto yy129;
+		case 'A': goto yy130;
+		case 'I': goto yy131;
+		case 'R': goto yy132;
+		case 'Y': goto yy133;
+		case 'e': goto yy134;
+		default: goto yy35;
 	}
-yy58:
-	yyaccept = 2;
+yy44:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy161;
-	case 'T':	goto yy162;
-	case 'n':	goto yy163;
-	default:	goto yy49;
+		case 'N': goto yy135;
+		case 'T': goto yy136;
+		case 'n': goto yy137;
+		default: goto yy35;
 	}
-yy59:
-	yyaccept = 2;
+yy45:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy164;
-	default:	goto yy49;
+		case 'i': goto yy138;
+		default: goto yy35;
 	}
-yy60:
-	yyaccept = 2;
+yy46:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy165;
-	default:	goto yy49;
+		case 'I': goto yy139;
+		default: goto yy35;
 	}
-yy61:
+yy47:
 	++context_.cursor;
-#line 11730 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1965 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-#line 12167 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy63:
+#line 12570 "asn_compiler.hpp"
+yy48:
 	++context_.cursor;
-#line 11731 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1966 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-#line 12172 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy65:
+#line 12575 "asn_compiler.hpp"
+yy49:
 	++context_.cursor;
-#line 11740 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1975 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-#line 12177 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy67:
-	yyaccept = 3;
+#line 12580 "asn_compiler.hpp"
+yy50:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy166;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy67;
-	default:	goto yy69;
+		case '-': goto yy140;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy50;
+		default: goto yy51;
 	}
-yy69:
-#line 11711 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy51:
+#line 1946 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12251 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy70:
+#line 12654 "asn_compiler.hpp"
+yy52:
 	++context_.cursor;
-#line 11726 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1961 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-#line 12256 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy72:
+#line 12659 "asn_compiler.hpp"
+yy53:
 	++context_.cursor;
-#line 11737 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1972 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-#line 12261 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy74:
+#line 12664 "asn_compiler.hpp"
+yy54:
 	++context_.cursor;
-#line 11727 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1962 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-#line 12266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 12669 "asn_compiler.hpp"
+yy55:
+	yych = *++context_.cursor;
+yy56:
+	switch (yych) {
+		case 0x00: goto yy57;
+		case '"': goto yy58;
+		default: goto yy55;
+	}
+yy57:
+	context_.cursor = YYMARKER;
+	switch (yyaccept) {
+		case 0: goto yy3;
+		case 1: goto yy20;
+		case 2: goto yy22;
+		case 3: goto yy27;
+		case 4: goto yy51;
+		case 5: goto yy59;
+		case 6: goto yy61;
+		case 7: goto yy63;
+		case 8: goto yy88;
+		case 9: goto yy115;
+		case 10: goto yy154;
+		case 11: goto yy156;
+		case 12: goto yy161;
+		case 13: goto yy175;
+		case 14: goto yy192;
+		case 15: goto yy194;
+		case 16: goto yy205;
+		case 17: goto yy214;
+		case 18: goto yy247;
+		case 19: goto yy260;
+		case 20: goto yy274;
+		case 21: goto yy287;
+		case 22: goto yy292;
+		case 23: goto yy297;
+		case 24: goto yy299;
+		case 25: goto yy301;
+		case 26: goto yy313;
+		case 27: goto yy319;
+		case 28: goto yy325;
+		case 29: goto yy342;
+		case 30: goto yy360;
+		case 31: goto yy379;
+		case 32: goto yy388;
+		case 33: goto yy396;
+		case 34: goto yy409;
+		case 35: goto yy431;
+		case 36: goto yy444;
+		case 37: goto yy446;
+		case 38: goto yy452;
+		case 39: goto yy464;
+		case 40: goto yy471;
+		case 41: goto yy476;
+		case 42: goto yy481;
+		case 43: goto yy490;
+		case 44: goto yy492;
+		case 45: goto yy497;
+		case 46: goto yy504;
+		case 47: goto yy508;
+		case 48: goto yy511;
+		case 49: goto yy513;
+		case 50: goto yy524;
+		case 51: goto yy540;
+		case 52: goto yy542;
+		case 53: goto yy546;
+		case 54: goto yy549;
+		case 55: goto yy556;
+		case 56: goto yy558;
+		case 57: goto yy560;
+		case 58: goto yy568;
+		case 59: goto yy574;
+		case 60: goto yy576;
+		case 61: goto yy589;
+		case 62: goto yy591;
+		case 63: goto yy593;
+		case 64: goto yy595;
+		case 65: goto yy599;
+		case 66: goto yy608;
+		case 67: goto yy621;
+		case 68: goto yy626;
+		case 69: goto yy634;
+		case 70: goto yy637;
+		case 71: goto yy641;
+		case 72: goto yy647;
+		case 73: goto yy662;
+		case 74: goto yy668;
+		case 75: goto yy670;
+		case 76: goto yy672;
+		case 77: goto yy689;
+		case 78: goto yy702;
+		case 79: goto yy704;
+		case 80: goto yy706;
+		case 81: goto yy709;
+		case 82: goto yy715;
+		case 83: goto yy724;
+		case 84: goto yy726;
+		case 85: goto yy729;
+		case 86: goto yy732;
+		case 87: goto yy735;
+		case 88: goto yy740;
+		case 89: goto yy744;
+		case 90: goto yy749;
+		case 91: goto yy756;
+		case 92: goto yy758;
+		case 93: goto yy761;
+		case 94: goto yy764;
+		case 95: goto yy767;
+		case 96: goto yy769;
+		case 97: goto yy771;
+		case 98: goto yy773;
+		default: goto yy775;
+	}
+yy58:
+	yyaccept = 5;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '"': goto yy55;
+		default: goto yy59;
+	}
+yy59:
+#line 1940 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
+#line 12792 "asn_compiler.hpp"
+yy60:
+	yyaccept = 6;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy141;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy60;
+		default: goto yy61;
+	}
+yy61:
+#line 1947 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
+#line 12866 "asn_compiler.hpp"
+yy62:
+	yyaccept = 7;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy142;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy62;
+		default: goto yy63;
+	}
+yy63:
+#line 1948 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
+#line 12940 "asn_compiler.hpp"
+yy64:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 'B': goto yy143;
+		case 'H': goto yy144;
+		default: goto yy57;
+	}
+yy65:
+	yych = *++context_.cursor;
+yy66:
+	switch (yych) {
+		case '\'': goto yy64;
+		case '0':
+		case '1': goto yy65;
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f': goto yy67;
+		default: goto yy57;
+	}
+yy67:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '\'': goto yy145;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f': goto yy67;
+		default: goto yy57;
+	}
+yy68:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 0x00:
+		case '\n':
+		case '\r': goto yy69;
+		case '-': goto yy146;
+		default: goto yy68;
+	}
+yy69:
+#line 1931 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); continue; }
+#line 13017 "asn_compiler.hpp"
+yy70:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy70;
+		default: goto yy71;
+	}
+yy71:
+#line 1938 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
+#line 13036 "asn_compiler.hpp"
+yy72:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '.': goto yy147;
+		default: goto yy73;
+	}
+yy73:
+#line 1960 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
+#line 13046 "asn_compiler.hpp"
+yy74:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 0x00: goto yy57;
+		case '*': goto yy148;
+		default: goto yy74;
+	}
+yy75:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy149;
+		default: goto yy57;
+	}
 yy76:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '"':	goto yy13;
-	default:	goto yy77;
+		case '=': goto yy151;
+		default: goto yy57;
 	}
 yy77:
-#line 11705 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-#line 12276 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy57;
+	}
 yy78:
-	++context_.cursor;
-	goto yy77;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy152;
+		default: goto yy35;
+	}
 yy79:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'L': goto yy153;
+		default: goto yy35;
+	}
+yy80:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '"':	goto yy167;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case 'Y': goto yy155;
+		default: goto yy35;
 	}
 yy81:
-	yyaccept = 4;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'P': goto yy157;
+		default: goto yy35;
+	}
+yy82:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy169;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy81;
-	default:	goto yy83;
+		case 'T': goto yy158;
+		default: goto yy35;
 	}
 yy83:
-#line 11712 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12360 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'G': goto yy159;
+		default: goto yy35;
+	}
 yy84:
-	yyaccept = 5;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy160;
+		default: goto yy35;
+	}
+yy85:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy170;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy84;
-	default:	goto yy86;
+		case 'P': goto yy162;
+		default: goto yy35;
 	}
 yy86:
-#line 11713 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12434 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'O': goto yy163;
+		default: goto yy35;
+	}
 yy87:
-	yych = *++context_.cursor;
+	yyaccept = 8;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy171;
-	case 'H':	goto yy173;
-	default:	goto yy77;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy88;
 	}
 yy88:
-	yych = *++context_.cursor;
+#line 1844 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
+#line 13279 "asn_compiler.hpp"
+yy89:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '"':	goto yy76;
-	case '\'':	goto yy175;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':	goto yy88;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case 'A': goto yy164;
+		case 'O': goto yy165;
+		default: goto yy35;
 	}
 yy90:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy166;
+		default: goto yy35;
+	}
+yy91:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '\n':
-	case '\r':	goto yy92;
-	case '-':	goto yy176;
-	default:	goto yy90;
+		case 'M': goto yy167;
+		case 'N': goto yy168;
+		default: goto yy35;
 	}
 yy92:
-#line 11696 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 12483 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy169;
+		default: goto yy35;
+	}
 yy93:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy93;
-	default:	goto yy95;
+		case 'F': goto yy170;
+		default: goto yy35;
+	}
+yy94:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'R': goto yy171;
+		default: goto yy35;
 	}
 yy95:
-#line 11703 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 12502 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'B': goto yy172;
+		default: goto yy35;
+	}
 yy96:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '.':	goto yy177;
-	default:	goto yy97;
+		case 'C': goto yy173;
+		case 'D': goto yy174;
+		case 'U': goto yy176;
+		default: goto yy35;
 	}
 yy97:
-#line 11725 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-#line 12512 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'C': goto yy177;
+		case 'P': goto yy178;
+		case 'T': goto yy179;
+		default: goto yy35;
+	}
 yy98:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'L': goto yy180;
+		default: goto yy35;
+	}
+yy99:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '*':	goto yy179;
-	default:	goto yy98;
+		case 'O': goto yy181;
+		default: goto yy35;
 	}
 yy100:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy181;
-	default:	goto yy101;
+		case 'n': goto yy182;
+		default: goto yy35;
 	}
 yy101:
-	context_.cursor = YYMARKER;
-	switch (yyaccept) {
-	case 0:
-		goto yy31;
-	case 1:
-		goto yy33;
-	case 2:
-		goto yy41;
-	case 3:
-		goto yy69;
-	case 4:
-		goto yy83;
-	case 5:
-		goto yy86;
-	case 6:
-		goto yy114;
-	case 7:
-		goto yy141;
-	case 8:
-		goto yy188;
-	case 9:
-		goto yy190;
-	case 10:
-		goto yy195;
-	case 11:
-		goto yy209;
-	case 12:
-		goto yy226;
-	case 13:
-		goto yy228;
-	case 14:
-		goto yy239;
-	case 15:
-		goto yy248;
-	case 16:
-		goto yy283;
-	case 17:
-		goto yy296;
-	case 18:
-		goto yy310;
-	case 19:
-		goto yy323;
-	case 20:
-		goto yy328;
-	case 21:
-		goto yy333;
-	case 22:
-		goto yy335;
-	case 23:
-		goto yy337;
-	case 24:
-		goto yy349;
-	case 25:
-		goto yy355;
-	case 26:
-		goto yy361;
-	case 27:
-		goto yy378;
-	case 28:
-		goto yy396;
-	case 29:
-		goto yy415;
-	case 30:
-		goto yy424;
-	case 31:
-		goto yy432;
-	case 32:
-		goto yy445;
-	case 33:
-		goto yy467;
-	case 34:
-		goto yy480;
-	case 35:
-		goto yy482;
-	case 36:
-		goto yy488;
-	case 37:
-		goto yy500;
-	case 38:
-		goto yy507;
-	case 39:
-		goto yy512;
-	case 40:
-		goto yy517;
-	case 41:
-		goto yy526;
-	case 42:
-		goto yy528;
-	case 43:
-		goto yy533;
-	case 44:
-		goto yy540;
-	case 45:
-		goto yy544;
-	case 46:
-		goto yy547;
-	case 47:
-		goto yy549;
-	case 48:
-		goto yy560;
-	case 49:
-		goto yy576;
-	case 50:
-		goto yy578;
-	case 51:
-		goto yy582;
-	case 52:
-		goto yy585;
-	case 53:
-		goto yy592;
-	case 54:
-		goto yy594;
-	case 55:
-		goto yy596;
-	case 56:
-		goto yy604;
-	case 57:
-		goto yy610;
-	case 58:
-		goto yy612;
-	case 59:
-		goto yy625;
-	case 60:
-		goto yy627;
-	case 61:
-		goto yy629;
-	case 62:
-		goto yy631;
-	case 63:
-		goto yy635;
-	case 64:
-		goto yy644;
-	case 65:
-		goto yy657;
-	case 66:
-		goto yy662;
-	case 67:
-		goto yy670;
-	case 68:
-		goto yy673;
-	case 69:
-		goto yy677;
-	case 70:
-		goto yy683;
-	case 71:
-		goto yy698;
-	case 72:
-		goto yy704;
-	case 73:
-		goto yy706;
-	case 74:
-		goto yy708;
-	case 75:
-		goto yy725;
-	case 76:
-		goto yy738;
-	case 77:
-		goto yy740;
-	case 78:
-		goto yy742;
-	case 79:
-		goto yy745;
-	case 80:
-		goto yy751;
-	case 81:
-		goto yy760;
-	case 82:
-		goto yy762;
-	case 83:
-		goto yy765;
-	case 84:
-		goto yy768;
-	case 85:
-		goto yy771;
-	case 86:
-		goto yy776;
-	case 87:
-		goto yy780;
-	case 88:
-		goto yy785;
-	case 89:
-		goto yy792;
-	case 90:
-		goto yy794;
-	case 91:
-		goto yy797;
-	case 92:
-		goto yy800;
-	case 93:
-		goto yy803;
-	case 94:
-		goto yy805;
-	case 95:
-		goto yy807;
-	case 96:
-		goto yy809;
-	default:
-		goto yy811;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'a': goto yy183;
+		default: goto yy35;
 	}
 yy102:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '=':	goto yy184;
-	default:	goto yy101;
+		case '5': goto yy184;
+		default: goto yy35;
 	}
 yy103:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy101;
+		case 'E': goto yy185;
+		default: goto yy35;
 	}
 yy104:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy186;
-	default:	goto yy49;
+		case 'P': goto yy186;
+		default: goto yy35;
 	}
 yy105:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy187;
-	default:	goto yy49;
+		case 'C': goto yy187;
+		case 'S': goto yy188;
+		case 'T': goto yy189;
+		default: goto yy35;
 	}
 yy106:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy189;
-	default:	goto yy49;
+		case 'O': goto yy190;
+		default: goto yy35;
 	}
 yy107:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy191;
-	default:	goto yy49;
+		case 'X': goto yy191;
+		default: goto yy35;
 	}
 yy108:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy192;
-	default:	goto yy49;
+		case 'N': goto yy193;
+		default: goto yy35;
 	}
 yy109:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy193;
-	default:	goto yy49;
+		case 'T': goto yy195;
+		default: goto yy35;
 	}
 yy110:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy194;
-	default:	goto yy49;
+		case 'L': goto yy196;
+		default: goto yy35;
 	}
 yy111:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy196;
-	default:	goto yy49;
+		case 'm': goto yy197;
+		default: goto yy35;
 	}
 yy112:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy197;
-	default:	goto yy49;
+		case 'J': goto yy198;
+		default: goto yy35;
 	}
 yy113:
-	yyaccept = 6;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy114;
+		case 'T': goto yy199;
+		default: goto yy35;
 	}
 yy114:
-#line 11609 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-#line 12944 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy115:
-	yyaccept = 2;
+	yyaccept = 9;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy198;
-	case 'O':	goto yy199;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy115;
 	}
+yy115:
+#line 1892 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
+#line 13536 "asn_compiler.hpp"
 yy116:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy200;
-	default:	goto yy49;
+		case 'D': goto yy200;
+		default: goto yy35;
 	}
 yy117:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy201;
-	case 'N':	goto yy202;
-	default:	goto yy49;
+		case 'T': goto yy201;
+		default: goto yy35;
 	}
 yy118:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy203;
-	default:	goto yy49;
+		case 'j': goto yy202;
+		default: goto yy35;
 	}
 yy119:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy204;
-	default:	goto yy49;
+		case 'T': goto yy203;
+		default: goto yy35;
 	}
 yy120:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy205;
-	default:	goto yy49;
+		case 'V': goto yy204;
+		default: goto yy35;
 	}
 yy121:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy206;
-	default:	goto yy49;
+		case 'U': goto yy206;
+		default: goto yy35;
 	}
 yy122:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy207;
-	case 'D':	goto yy208;
-	case 'U':	goto yy210;
-	default:	goto yy49;
+		case 'E': goto yy207;
+		case 'I': goto yy208;
+		default: goto yy35;
 	}
 yy123:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy211;
-	case 'P':	goto yy212;
-	case 'T':	goto yy213;
-	default:	goto yy49;
+		case 'i': goto yy209;
+		default: goto yy35;
 	}
 yy124:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy214;
-	default:	goto yy49;
+		case 'A': goto yy210;
+		case 'L': goto yy211;
+		default: goto yy35;
 	}
 yy125:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy215;
-	default:	goto yy49;
+		case 'Q': goto yy212;
+		case 'T': goto yy213;
+		default: goto yy35;
 	}
 yy126:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy216;
-	default:	goto yy49;
+		case 'Z': goto yy215;
+		default: goto yy35;
 	}
 yy127:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy217;
-	default:	goto yy49;
+		case 'R': goto yy216;
+		default: goto yy35;
 	}
 yy128:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '5':	goto yy218;
-	default:	goto yy49;
+		case 'N': goto yy217;
+		default: goto yy35;
 	}
 yy129:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy219;
-	default:	goto yy49;
+		case '1': goto yy218;
+		default: goto yy35;
 	}
 yy130:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy220;
-	default:	goto yy49;
+		case 'G': goto yy219;
+		default: goto yy35;
 	}
 yy131:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy221;
-	case 'S':	goto yy222;
-	case 'T':	goto yy223;
-	default:	goto yy49;
+		case 'M': goto yy220;
+		default: goto yy35;
 	}
 yy132:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy224;
-	default:	goto yy49;
+		case 'U': goto yy221;
+		default: goto yy35;
 	}
 yy133:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'X':	goto yy225;
-	default:	goto yy49;
+		case 'P': goto yy222;
+		default: goto yy35;
 	}
 yy134:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy227;
-	default:	goto yy49;
+		case 'l': goto yy223;
+		default: goto yy35;
 	}
 yy135:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy229;
-	default:	goto yy49;
+		case 'I': goto yy224;
+		default: goto yy35;
 	}
 yy136:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy230;
-	default:	goto yy49;
+		case 'C': goto yy225;
+		case 'F': goto yy226;
+		default: goto yy35;
 	}
 yy137:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'm':	goto yy231;
-	default:	goto yy49;
+		case 'i': goto yy227;
+		default: goto yy35;
 	}
 yy138:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'J':	goto yy232;
-	default:	goto yy49;
+		case 'd': goto yy228;
+		case 's': goto yy229;
+		default: goto yy35;
 	}
 yy139:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy233;
-	default:	goto yy49;
+		case 'T': goto yy230;
+		default: goto yy35;
 	}
 yy140:
-	yyaccept = 7;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy141;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy50;
+		default: goto yy57;
 	}
 yy141:
-#line 11657 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-#line 13201 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy60;
+		default: goto yy57;
+	}
 yy142:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'D':	goto yy234;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy62;
+		default: goto yy57;
 	}
 yy143:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	++context_.cursor;
+#line 1942 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
+#line 13918 "asn_compiler.hpp"
+yy144:
+	++context_.cursor;
+#line 1944 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
+#line 13923 "asn_compiler.hpp"
+yy145:
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'T':	goto yy235;
-	default:	goto yy49;
+		case 'H': goto yy144;
+		default: goto yy57;
 	}
-yy144:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+yy146:
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'j':	goto yy236;
-	default:	goto yy49;
-	}
-yy145:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'T':	goto yy237;
-	default:	goto yy49;
-	}
-yy146:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'V':	goto yy238;
-	default:	goto yy49;
+		case 0x00:
+		case '\n':
+		case '\r': goto yy69;
+		case '-': goto yy231;
+		default: goto yy68;
 	}
 yy147:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'U':	goto yy240;
-	default:	goto yy49;
-	}
+	++context_.cursor;
+#line 1959 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
+#line 13943 "asn_compiler.hpp"
 yy148:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'E':	goto yy241;
-	case 'I':	goto yy242;
-	default:	goto yy49;
+		case 0x00: goto yy57;
+		case '*': goto yy148;
+		case '/': goto yy232;
+		default: goto yy74;
 	}
 yy149:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'i':	goto yy243;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy149;
+		default: goto yy150;
 	}
 yy150:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'A':	goto yy244;
-	case 'L':	goto yy245;
-	default:	goto yy49;
-	}
+#line 1936 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
+#line 13970 "asn_compiler.hpp"
 yy151:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'Q':	goto yy246;
-	case 'T':	goto yy247;
-	default:	goto yy49;
-	}
+	++context_.cursor;
+#line 1958 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
+#line 13975 "asn_compiler.hpp"
 yy152:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Z':	goto yy249;
-	default:	goto yy49;
+		case 'E': goto yy233;
+		case 'T': goto yy234;
+		default: goto yy35;
 	}
 yy153:
-	yyaccept = 2;
+	yyaccept = 10;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy250;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy154;
 	}
 yy154:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'N':	goto yy251;
-	default:	goto yy49;
-	}
+#line 1836 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
+#line 14057 "asn_compiler.hpp"
 yy155:
-	yyaccept = 2;
+	yyaccept = 11;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '1':	goto yy252;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy156;
 	}
 yy156:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'G':	goto yy253;
-	default:	goto yy49;
-	}
+#line 1837 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
+#line 14131 "asn_compiler.hpp"
 yy157:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy254;
-	default:	goto yy49;
+		case 'L': goto yy235;
+		default: goto yy35;
 	}
 yy158:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy255;
-	default:	goto yy49;
+		case 'O': goto yy236;
+		default: goto yy35;
 	}
 yy159:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy256;
-	default:	goto yy49;
+		case 'I': goto yy237;
+		default: goto yy35;
 	}
 yy160:
-	yyaccept = 2;
+	yyaccept = 12;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy257;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy161;
 	}
 yy161:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'I':	goto yy258;
-	default:	goto yy49;
-	}
+#line 1841 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
+#line 14226 "asn_compiler.hpp"
 yy162:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy259;
-	case 'F':	goto yy260;
-	default:	goto yy49;
+		case 'S': goto yy238;
+		default: goto yy35;
 	}
 yy163:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy261;
-	default:	goto yy49;
+		case 'L': goto yy239;
+		default: goto yy35;
 	}
 yy164:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'd':	goto yy262;
-	case 's':	goto yy263;
-	default:	goto yy49;
+		case 'R': goto yy240;
+		default: goto yy35;
 	}
 yy165:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy264;
-	default:	goto yy49;
+		case 'I': goto yy241;
+		default: goto yy35;
 	}
 yy166:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy67;
-	default:	goto yy101;
+		case 'S': goto yy242;
+		default: goto yy35;
 	}
 yy167:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'P': goto yy243;
+		default: goto yy35;
+	}
+yy168:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '"':	goto yy167;
-	case '\'':	goto yy78;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case 'S': goto yy244;
+		case 'T': goto yy245;
+		default: goto yy35;
 	}
 yy169:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy81;
-	default:	goto yy101;
+		case 'E': goto yy246;
+		default: goto yy35;
 	}
 yy170:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy84;
-	default:	goto yy101;
+		case 'A': goto yy248;
+		case 'I': goto yy249;
+		default: goto yy35;
 	}
 yy171:
-	++context_.cursor;
-#line 11707 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13591 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy250;
+		default: goto yy35;
+	}
+yy172:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy251;
+		default: goto yy35;
+	}
 yy173:
-	++context_.cursor;
-#line 11709 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13596 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy175:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'O': goto yy252;
+		default: goto yy35;
+	}
+yy174:
+	yyaccept = 13;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'H':	goto yy173;
-	default:	goto yy77;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy175;
 	}
+yy175:
+#line 1860 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
+#line 14386 "asn_compiler.hpp"
 yy176:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '\n':
-	case '\r':	goto yy92;
-	case '-':	goto yy265;
-	default:	goto yy90;
+		case 'M': goto yy253;
+		default: goto yy35;
 	}
 yy177:
-	++context_.cursor;
-#line 11724 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-#line 13615 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy254;
+		default: goto yy35;
+	}
+yy178:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'L': goto yy255;
+		case 'O': goto yy256;
+		default: goto yy35;
+	}
 yy179:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy257;
+		default: goto yy35;
+	}
+yy180:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '*':	goto yy179;
-	case '/':	goto yy267;
-	default:	goto yy98;
+		case 'S': goto yy258;
+		default: goto yy35;
 	}
 yy181:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'M': goto yy259;
+		default: goto yy35;
+	}
+yy182:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy181;
-	default:	goto yy183;
+		case 'e': goto yy261;
+		default: goto yy35;
 	}
 yy183:
-#line 11701 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-#line 13641 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'p': goto yy262;
+		default: goto yy35;
+	}
 yy184:
-	++context_.cursor;
-#line 11723 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-#line 13646 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy263;
+		default: goto yy35;
+	}
+yy185:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy264;
+		default: goto yy35;
+	}
 yy186:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy269;
-	case 'T':	goto yy270;
-	default:	goto yy49;
+		case 'L': goto yy265;
+		case 'O': goto yy266;
+		default: goto yy35;
 	}
 yy187:
-	yyaccept = 8;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy188;
+		case 'L': goto yy267;
+		default: goto yy35;
 	}
 yy188:
-#line 11601 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-#line 13728 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy268;
+		default: goto yy35;
+	}
 yy189:
-	yyaccept = 9;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy190;
+		case 'E': goto yy269;
+		default: goto yy35;
 	}
 yy190:
-#line 11602 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-#line 13802 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy191:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy271;
-	default:	goto yy49;
+		case '6': goto yy270;
+		default: goto yy35;
 	}
-yy192:
-	yyaccept = 2;
+yy191:
+	yyaccept = 14;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy272;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy192;
 	}
+yy192:
+#line 1883 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
+#line 14567 "asn_compiler.hpp"
 yy193:
-	yyaccept = 2;
+	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy273;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'U': goto yy271;
+		default: goto yy194;
 	}
 yy194:
-	yyaccept = 10;
+#line 1884 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
+#line 14641 "asn_compiler.hpp"
+yy195:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy195;
+		case '-': goto yy272;
+		default: goto yy35;
 	}
-yy195:
-#line 11606 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-#line 13897 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy196:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy274;
-	default:	goto yy49;
+		case 'L': goto yy273;
+		default: goto yy35;
 	}
 yy197:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy275;
-	default:	goto yy49;
+		case 'e': goto yy275;
+		default: goto yy35;
 	}
 yy198:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy276;
-	default:	goto yy49;
+		case 'E': goto yy276;
+		default: goto yy35;
 	}
 yy199:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy277;
-	default:	goto yy49;
+		case 'E': goto yy277;
+		default: goto yy35;
 	}
 yy200:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy278;
-	default:	goto yy49;
+		case '-': goto yy278;
+		default: goto yy35;
 	}
 yy201:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy279;
-	default:	goto yy49;
+		case 'I': goto yy279;
+		default: goto yy35;
 	}
 yy202:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy280;
-	case 'T':	goto yy281;
-	default:	goto yy49;
+		case 'e': goto yy280;
+		default: goto yy35;
 	}
 yy203:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy282;
-	default:	goto yy49;
+		case 'T': goto yy281;
+		default: goto yy35;
 	}
 yy204:
-	yyaccept = 2;
+	yyaccept = 16;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy284;
-	case 'I':	goto yy285;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy205;
 	}
 yy205:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'A':	goto yy286;
-	default:	goto yy49;
-	}
+#line 1896 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
+#line 14778 "asn_compiler.hpp"
 yy206:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy287;
-	default:	goto yy49;
+		case 'S': goto yy282;
+		default: goto yy35;
 	}
 yy207:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy288;
-	default:	goto yy49;
+		case 'S': goto yy283;
+		default: goto yy35;
 	}
 yy208:
-	yyaccept = 11;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy209;
+		case 'V': goto yy284;
+		default: goto yy35;
 	}
 yy209:
-#line 11625 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-#line 14057 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'n': goto yy285;
+		default: goto yy35;
+	}
 yy210:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy289;
-	default:	goto yy49;
+		case 'L': goto yy286;
+		default: goto yy35;
 	}
 yy211:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy290;
-	default:	goto yy49;
+		case 'A': goto yy288;
+		default: goto yy35;
 	}
 yy212:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy291;
-	case 'O':	goto yy292;
-	default:	goto yy49;
+		case 'U': goto yy289;
+		default: goto yy35;
 	}
 yy213:
-	yyaccept = 2;
+	yyaccept = 17;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy293;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'T': goto yy290;
+		default: goto yy214;
 	}
 yy214:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'S':	goto yy294;
-	default:	goto yy49;
-	}
+#line 1905 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
+#line 14901 "asn_compiler.hpp"
 yy215:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy295;
-	default:	goto yy49;
+		case 'E': goto yy291;
+		default: goto yy35;
 	}
 yy216:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy297;
-	default:	goto yy49;
+		case 'I': goto yy293;
+		default: goto yy35;
 	}
 yy217:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'p':	goto yy298;
-	default:	goto yy49;
+		case 'T': goto yy294;
+		default: goto yy35;
 	}
 yy218:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy299;
-	default:	goto yy49;
+		case 'S': goto yy295;
+		default: goto yy35;
 	}
 yy219:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy300;
-	default:	goto yy49;
+		case 'S': goto yy296;
+		default: goto yy35;
 	}
 yy220:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy301;
-	case 'O':	goto yy302;
-	default:	goto yy49;
+		case 'E': goto yy298;
+		default: goto yy35;
 	}
 yy221:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy303;
-	default:	goto yy49;
+		case 'E': goto yy300;
+		default: goto yy35;
 	}
 yy222:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy304;
-	default:	goto yy49;
+		case 'E': goto yy302;
+		default: goto yy35;
 	}
 yy223:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy305;
-	default:	goto yy49;
+		case 'e': goto yy303;
+		default: goto yy35;
 	}
 yy224:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '6':	goto yy306;
-	default:	goto yy49;
+		case 'O': goto yy304;
+		case 'Q': goto yy305;
+		case 'V': goto yy306;
+		default: goto yy35;
 	}
 yy225:
-	yyaccept = 12;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy226;
+		case 'T': goto yy307;
+		default: goto yy35;
 	}
 yy226:
-#line 11648 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-#line 14238 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '8': goto yy308;
+		default: goto yy35;
+	}
 yy227:
-	yyaccept = 13;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'U':	goto yy307;
-	default:	goto yy228;
+		case 'v': goto yy309;
+		default: goto yy35;
 	}
 yy228:
-#line 11649 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-#line 14312 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy229:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy308;
-	default:	goto yy49;
+		case 'e': goto yy310;
+		default: goto yy35;
 	}
-yy230:
-	yyaccept = 2;
+yy229:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy309;
-	default:	goto yy49;
+		case 'i': goto yy311;
+		default: goto yy35;
 	}
-yy231:
-	yyaccept = 2;
+yy230:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy311;
-	default:	goto yy49;
+		case 'H': goto yy312;
+		default: goto yy35;
 	}
+yy231:
+	++context_.cursor;
+#line 1929 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); continue; }
+#line 15020 "asn_compiler.hpp"
 yy232:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'E':	goto yy312;
-	default:	goto yy49;
-	}
+	++context_.cursor;
+#line 1933 "src/compiler/asn_compiler.yacc"
+	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
+#line 15025 "asn_compiler.hpp"
 yy233:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy313;
-	default:	goto yy49;
+		case 'N': goto yy314;
+		default: goto yy35;
 	}
 yy234:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '_':	goto yy314;
-	default:	goto yy49;
+		case 'R': goto yy315;
+		default: goto yy35;
 	}
 yy235:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy315;
-	default:	goto yy49;
+		case 'I': goto yy316;
+		default: goto yy35;
 	}
 yy236:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy316;
-	default:	goto yy49;
+		case 'M': goto yy317;
+		default: goto yy35;
 	}
 yy237:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy317;
-	default:	goto yy49;
+		case 'N': goto yy318;
+		default: goto yy35;
 	}
 yy238:
-	yyaccept = 14;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy239;
+		case 't': goto yy320;
+		default: goto yy35;
 	}
 yy239:
-#line 11661 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-#line 14449 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy321;
+		default: goto yy35;
+	}
 yy240:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy318;
-	default:	goto yy49;
+		case 'A': goto yy322;
+		default: goto yy35;
 	}
 yy241:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy319;
-	default:	goto yy49;
+		case 'C': goto yy323;
+		default: goto yy35;
 	}
 yy242:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'V':	goto yy320;
-	default:	goto yy49;
+		case 'S': goto yy324;
+		default: goto yy35;
 	}
 yy243:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy321;
-	default:	goto yy49;
+		case 'O': goto yy326;
+		default: goto yy35;
 	}
 yy244:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy322;
-	default:	goto yy49;
+		case 'T': goto yy327;
+		default: goto yy35;
 	}
 yy245:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy324;
-	default:	goto yy49;
+		case 'A': goto yy328;
+		default: goto yy35;
 	}
 yy246:
-	yyaccept = 2;
+	yyaccept = 18;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy325;
-	default:	goto yy49;
+		case '-': goto yy329;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy247;
 	}
 yy247:
-	yyaccept = 15;
+#line 1852 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
+#line 15190 "asn_compiler.hpp"
+yy248:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'T':	goto yy326;
-	default:	goto yy248;
+		case 'U': goto yy330;
+		default: goto yy35;
 	}
-yy248:
-#line 11670 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-#line 14572 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy249:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy327;
-	default:	goto yy49;
+		case 'N': goto yy331;
+		default: goto yy35;
 	}
 yy250:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy329;
-	default:	goto yy49;
+		case 'T': goto yy332;
+		default: goto yy35;
 	}
 yy251:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy330;
-	default:	goto yy49;
+		case 'D': goto yy333;
+		default: goto yy35;
 	}
 yy252:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy331;
-	default:	goto yy49;
+		case 'D': goto yy334;
+		default: goto yy35;
 	}
 yy253:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy332;
-	default:	goto yy49;
+		case 'E': goto yy335;
+		default: goto yy35;
 	}
 yy254:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy334;
-	default:	goto yy49;
+		case 'P': goto yy336;
+		default: goto yy35;
 	}
 yy255:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy336;
-	default:	goto yy49;
+		case 'I': goto yy337;
+		default: goto yy35;
 	}
 yy256:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy338;
-	default:	goto yy49;
+		case 'R': goto yy338;
+		default: goto yy35;
 	}
 yy257:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy339;
-	default:	goto yy49;
+		case 'N': goto yy339;
+		case 'R': goto yy340;
+		default: goto yy35;
 	}
 yy258:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy340;
-	case 'Q':	goto yy341;
-	case 'V':	goto yy342;
-	default:	goto yy49;
+		case 'E': goto yy341;
+		default: goto yy35;
 	}
 yy259:
-	yyaccept = 2;
+	yyaccept = 19;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy343;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy260;
 	}
 yy260:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '8':	goto yy344;
-	default:	goto yy49;
-	}
+#line 1868 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
+#line 15342 "asn_compiler.hpp"
 yy261:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'v':	goto yy345;
-	default:	goto yy49;
+		case 'r': goto yy343;
+		default: goto yy35;
 	}
 yy262:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy346;
-	default:	goto yy49;
+		case 'h': goto yy344;
+		default: goto yy35;
 	}
 yy263:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy347;
-	default:	goto yy49;
+		case 't': goto yy345;
+		default: goto yy35;
 	}
 yy264:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'H':	goto yy348;
-	default:	goto yy49;
+		case 'T': goto yy346;
+		default: goto yy35;
 	}
 yy265:
-	++context_.cursor;
-#line 11694 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 14691 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy347;
+		default: goto yy35;
+	}
+yy266:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'R': goto yy348;
+		default: goto yy35;
+	}
 yy267:
-	++context_.cursor;
-#line 11698 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
-#line 14696 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'U': goto yy349;
+		default: goto yy35;
+	}
+yy268:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy350;
+		case 'R': goto yy351;
+		default: goto yy35;
+	}
 yy269:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy350;
-	default:	goto yy49;
+		case 'G': goto yy352;
+		case 'R': goto yy353;
+		default: goto yy35;
 	}
 yy270:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy351;
-	default:	goto yy49;
+		case '4': goto yy354;
+		default: goto yy35;
 	}
 yy271:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy352;
-	default:	goto yy49;
+		case 'S': goto yy355;
+		default: goto yy35;
 	}
 yy272:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'M':	goto yy353;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'A': goto yy356;
+		default: goto yy57;
 	}
 yy273:
-	yyaccept = 2;
+	yyaccept = 20;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy354;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy274;
 	}
 yy274:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 't':	goto yy356;
-	default:	goto yy49;
-	}
+#line 1887 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
+#line 15563 "asn_compiler.hpp"
 yy275:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy357;
-	default:	goto yy49;
+		case 'r': goto yy357;
+		default: goto yy35;
 	}
 yy276:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy358;
-	default:	goto yy49;
+		case 'C': goto yy358;
+		default: goto yy35;
 	}
 yy277:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy359;
-	default:	goto yy49;
+		case 'T': goto yy359;
+		default: goto yy35;
 	}
 yy278:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'S':	goto yy360;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy361;
+		default: goto yy57;
 	}
 yy279:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy362;
-	default:	goto yy49;
+		case 'O': goto yy362;
+		default: goto yy35;
 	}
 yy280:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy363;
-	default:	goto yy49;
+		case 'c': goto yy363;
+		default: goto yy35;
 	}
 yy281:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy364;
-	default:	goto yy49;
+		case 'E': goto yy364;
+		default: goto yy35;
 	}
 yy282:
-	yyaccept = 16;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy365;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy283;
+		case '-': goto yy365;
+		default: goto yy35;
 	}
 yy283:
-#line 11617 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-#line 14861 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy366;
+		default: goto yy35;
+	}
 yy284:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy366;
-	default:	goto yy49;
+		case 'A': goto yy367;
+		default: goto yy35;
 	}
 yy285:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy367;
-	default:	goto yy49;
+		case 't': goto yy368;
+		default: goto yy35;
 	}
 yy286:
-	yyaccept = 2;
+	yyaccept = 21;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy368;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy287;
 	}
 yy287:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'D':	goto yy369;
-	default:	goto yy49;
-	}
+#line 1901 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
+#line 15775 "asn_compiler.hpp"
 yy288:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy370;
-	default:	goto yy49;
+		case 'T': goto yy369;
+		default: goto yy35;
 	}
 yy289:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy371;
-	default:	goto yy49;
+		case 'E': goto yy370;
+		default: goto yy35;
 	}
 yy290:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy372;
-	default:	goto yy49;
+		case 'I': goto yy371;
+		default: goto yy35;
 	}
 yy291:
-	yyaccept = 2;
+	yyaccept = 22;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy373;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy292;
 	}
 yy292:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'R':	goto yy374;
-	default:	goto yy49;
-	}
+#line 1907 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
+#line 15870 "asn_compiler.hpp"
 yy293:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy375;
-	case 'R':	goto yy376;
-	default:	goto yy49;
+		case 'N': goto yy372;
+		default: goto yy35;
 	}
 yy294:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy377;
-	default:	goto yy49;
+		case 'A': goto yy373;
+		default: goto yy35;
 	}
 yy295:
-	yyaccept = 17;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy296;
+		case 't': goto yy374;
+		default: goto yy35;
 	}
 yy296:
-#line 11633 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-#line 15013 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy297:
-	yyaccept = 2;
+	yyaccept = 23;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy379;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy297;
 	}
+yy297:
+#line 1911 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
+#line 15965 "asn_compiler.hpp"
 yy298:
-	yyaccept = 2;
+	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'h':	goto yy380;
-	default:	goto yy49;
+		case '-': goto yy375;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy299;
 	}
 yy299:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 't':	goto yy381;
-	default:	goto yy49;
-	}
+#line 1913 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
+#line 16039 "asn_compiler.hpp"
 yy300:
-	yyaccept = 2;
+	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy382;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy301;
 	}
 yy301:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'I':	goto yy383;
-	default:	goto yy49;
-	}
+#line 1915 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
+#line 16113 "asn_compiler.hpp"
 yy302:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy384;
-	default:	goto yy49;
+		case '-': goto yy376;
+		default: goto yy35;
 	}
 yy303:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy385;
-	default:	goto yy49;
+		case 't': goto yy377;
+		default: goto yy35;
 	}
 yy304:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy386;
-	case 'R':	goto yy387;
-	default:	goto yy49;
+		case 'N': goto yy378;
+		default: goto yy35;
 	}
 yy305:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy388;
-	case 'R':	goto yy389;
-	default:	goto yy49;
+		case 'U': goto yy380;
+		default: goto yy35;
 	}
 yy306:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '4':	goto yy390;
-	default:	goto yy49;
+		case 'E': goto yy381;
+		default: goto yy35;
 	}
 yy307:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy391;
-	default:	goto yy49;
+		case 'i': goto yy382;
+		default: goto yy35;
 	}
 yy308:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'A':	goto yy392;
-	default:	goto yy101;
+		case 'S': goto yy383;
+		default: goto yy35;
 	}
 yy309:
-	yyaccept = 18;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy310;
+		case 'e': goto yy384;
+		default: goto yy35;
 	}
 yy310:
-#line 11652 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-#line 15234 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy311:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy393;
-	default:	goto yy49;
+		case 'o': goto yy385;
+		default: goto yy35;
 	}
-yy312:
-	yyaccept = 2;
+yy311:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy394;
-	default:	goto yy49;
+		case 'b': goto yy386;
+		default: goto yy35;
 	}
-yy313:
-	yyaccept = 2;
+yy312:
+	yyaccept = 26;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy395;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy313;
 	}
+yy313:
+#line 1925 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
+#line 16257 "asn_compiler.hpp"
 yy314:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy397;
-	default:	goto yy49;
+		case 'T': goto yy387;
+		default: goto yy35;
 	}
 yy315:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy398;
-	default:	goto yy49;
+		case 'A': goto yy389;
+		default: goto yy35;
 	}
 yy316:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy399;
-	default:	goto yy49;
+		case 'C': goto yy390;
+		default: goto yy35;
 	}
 yy317:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy400;
-	default:	goto yy49;
+		case 'A': goto yy391;
+		default: goto yy35;
 	}
 yy318:
-	yyaccept = 2;
+	yyaccept = 27;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '_':	goto yy401;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy319;
 	}
 yy319:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'E':	goto yy402;
-	default:	goto yy49;
-	}
+#line 1840 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
+#line 16359 "asn_compiler.hpp"
 yy320:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy403;
-	default:	goto yy49;
+		case 'r': goto yy392;
+		default: goto yy35;
 	}
 yy321:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy404;
-	default:	goto yy49;
+		case 'A': goto yy393;
+		default: goto yy35;
 	}
 yy322:
-	yyaccept = 19;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy323;
+		case 'C': goto yy394;
+		default: goto yy35;
 	}
 yy323:
-#line 11666 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-#line 15385 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy324:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy405;
-	default:	goto yy49;
+		case 'E': goto yy395;
+		default: goto yy35;
 	}
-yy325:
-	yyaccept = 2;
+yy324:
+	yyaccept = 28;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy406;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy325;
 	}
+yy325:
+#line 1847 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
+#line 16461 "asn_compiler.hpp"
 yy326:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy407;
-	default:	goto yy49;
+		case 'N': goto yy397;
+		default: goto yy35;
 	}
 yy327:
-	yyaccept = 20;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy328;
+		case 'R': goto yy398;
+		default: goto yy35;
 	}
 yy328:
-#line 11672 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-#line 15480 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy329:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy408;
-	default:	goto yy49;
+		case 'I': goto yy399;
+		default: goto yy35;
+	}
+yy329:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'T': goto yy400;
+		default: goto yy57;
 	}
 yy330:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy409;
-	default:	goto yy49;
+		case 'L': goto yy401;
+		default: goto yy35;
 	}
 yy331:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy410;
-	default:	goto yy49;
+		case 'I': goto yy402;
+		default: goto yy35;
 	}
 yy332:
-	yyaccept = 21;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy333;
+		case 'I': goto yy403;
+		default: goto yy35;
 	}
 yy333:
-#line 11676 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-#line 15575 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'D': goto yy404;
+		default: goto yy35;
+	}
 yy334:
-	yyaccept = 22;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy411;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy335;
+		case 'E': goto yy405;
+		case 'I': goto yy406;
+		default: goto yy35;
 	}
 yy335:
-#line 11678 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-#line 15649 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'R': goto yy407;
+		default: goto yy35;
+	}
 yy336:
-	yyaccept = 23;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy337;
+		case 'T': goto yy408;
+		default: goto yy35;
 	}
 yy337:
-#line 11680 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-#line 15723 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'C': goto yy410;
+		default: goto yy35;
+	}
 yy338:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy412;
-	default:	goto yy49;
+		case 'T': goto yy411;
+		default: goto yy35;
 	}
 yy339:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy413;
-	default:	goto yy49;
+		case 'S': goto yy412;
+		default: goto yy35;
 	}
 yy340:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy414;
-	default:	goto yy49;
+		case 'N': goto yy413;
+		default: goto yy35;
 	}
 yy341:
-	yyaccept = 2;
+	yyaccept = 29;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy416;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy342;
 	}
 yy342:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'E':	goto yy417;
-	default:	goto yy49;
-	}
+#line 1867 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
+#line 16702 "asn_compiler.hpp"
 yy343:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy418;
-	default:	goto yy49;
+		case 'a': goto yy414;
+		default: goto yy35;
 	}
 yy344:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy419;
-	default:	goto yy49;
+		case 'i': goto yy415;
+		default: goto yy35;
 	}
 yy345:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy420;
-	default:	goto yy49;
+		case 'r': goto yy416;
+		default: goto yy35;
 	}
 yy346:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'o':	goto yy421;
-	default:	goto yy49;
+		case 'I': goto yy417;
+		default: goto yy35;
 	}
 yy347:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'b':	goto yy422;
-	default:	goto yy49;
+		case 'C': goto yy418;
+		case 'E': goto yy419;
+		default: goto yy35;
 	}
 yy348:
-	yyaccept = 24;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy349;
+		case 'T': goto yy420;
+		default: goto yy35;
 	}
 yy349:
-#line 11690 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-#line 15867 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'D': goto yy421;
+		default: goto yy35;
+	}
 yy350:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy423;
-	default:	goto yy49;
+		case 'N': goto yy422;
+		default: goto yy35;
 	}
 yy351:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy425;
-	default:	goto yy49;
+		case 'U': goto yy423;
+		default: goto yy35;
 	}
 yy352:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy426;
-	default:	goto yy49;
+		case 'E': goto yy424;
+		default: goto yy35;
 	}
 yy353:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy427;
-	default:	goto yy49;
+		case 'S': goto yy425;
+		default: goto yy35;
 	}
 yy354:
-	yyaccept = 25;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy355;
+		case '6': goto yy426;
+		default: goto yy35;
 	}
 yy355:
-#line 11605 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-#line 15969 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy427;
+		default: goto yy35;
+	}
 yy356:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy428;
-	default:	goto yy49;
+		case '-': goto yy428;
+		default: goto yy35;
 	}
 yy357:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy429;
-	default:	goto yy49;
+		case 'i': goto yy429;
+		default: goto yy35;
 	}
 yy358:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy430;
-	default:	goto yy49;
+		case 'T': goto yy430;
+		default: goto yy35;
 	}
 yy359:
-	yyaccept = 2;
+	yyaccept = 30;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy431;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy360;
 	}
 yy360:
-	yyaccept = 26;
+#line 1891 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
+#line 16889 "asn_compiler.hpp"
+yy361:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy361;
+		case 'R': goto yy432;
+		default: goto yy35;
 	}
-yy361:
-#line 11612 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-#line 16071 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy362:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy433;
-	default:	goto yy49;
+		case 'N': goto yy433;
+		default: goto yy35;
 	}
 yy363:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy434;
-	default:	goto yy49;
+		case 't': goto yy434;
+		default: goto yy35;
 	}
 yy364:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy435;
-	default:	goto yy49;
+		case 'R': goto yy435;
+		default: goto yy35;
 	}
 yy365:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'T':	goto yy436;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy436;
+		default: goto yy57;
 	}
 yy366:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy437;
-	default:	goto yy49;
+		case 'N': goto yy437;
+		default: goto yy35;
 	}
 yy367:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy438;
-	default:	goto yy49;
+		case 'T': goto yy438;
+		default: goto yy35;
 	}
 yy368:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy439;
-	default:	goto yy49;
+		case 'a': goto yy439;
+		default: goto yy35;
 	}
 yy369:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy440;
-	default:	goto yy49;
+		case 'I': goto yy440;
+		default: goto yy35;
 	}
 yy370:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy441;
-	case 'I':	goto yy442;
-	default:	goto yy49;
+		case 'N': goto yy441;
+		default: goto yy35;
 	}
 yy371:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy443;
-	default:	goto yy49;
+		case 'N': goto yy442;
+		default: goto yy35;
 	}
 yy372:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy444;
-	default:	goto yy49;
+		case 'G': goto yy443;
+		default: goto yy35;
 	}
 yy373:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy446;
-	default:	goto yy49;
+		case 'X': goto yy445;
+		default: goto yy35;
 	}
 yy374:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy447;
-	default:	goto yy49;
+		case 'r': goto yy447;
+		default: goto yy35;
 	}
 yy375:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'S':	goto yy448;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'O': goto yy448;
+		default: goto yy57;
 	}
 yy376:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'N':	goto yy449;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy449;
+		default: goto yy57;
 	}
 yy377:
-	yyaccept = 27;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy378;
+		case 'e': goto yy450;
+		default: goto yy35;
 	}
 yy378:
-#line 11632 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-#line 16312 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy379:
-	yyaccept = 2;
+	yyaccept = 31;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy450;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy379;
 	}
+yy379:
+#line 1917 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
+#line 17265 "asn_compiler.hpp"
 yy380:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy451;
-	default:	goto yy49;
+		case 'E': goto yy451;
+		default: goto yy35;
 	}
 yy381:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy452;
-	default:	goto yy49;
+		case 'R': goto yy453;
+		default: goto yy35;
 	}
 yy382:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy453;
-	default:	goto yy49;
+		case 'm': goto yy454;
+		default: goto yy35;
 	}
 yy383:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy454;
-	case 'E':	goto yy455;
-	default:	goto yy49;
+		case 't': goto yy455;
+		default: goto yy35;
 	}
 yy384:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy456;
-	default:	goto yy49;
+		case 'r': goto yy456;
+		default: goto yy35;
 	}
 yy385:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy457;
-	default:	goto yy49;
+		case 't': goto yy457;
+		default: goto yy35;
 	}
 yy386:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy458;
-	default:	goto yy49;
+		case 'l': goto yy458;
+		default: goto yy35;
 	}
 yy387:
-	yyaccept = 2;
+	yyaccept = 32;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy459;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy388;
 	}
 yy388:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'E':	goto yy460;
-	default:	goto yy49;
-	}
+#line 1834 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
+#line 17388 "asn_compiler.hpp"
 yy389:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy461;
-	default:	goto yy49;
+		case 'C': goto yy459;
+		default: goto yy35;
 	}
 yy390:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '6':	goto yy462;
-	default:	goto yy49;
+		case 'A': goto yy460;
+		default: goto yy35;
 	}
 yy391:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy463;
-	default:	goto yy49;
+		case 'T': goto yy461;
+		default: goto yy35;
 	}
 yy392:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy464;
-	default:	goto yy49;
+		case 'i': goto yy462;
+		default: goto yy35;
 	}
 yy393:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy465;
-	default:	goto yy49;
+		case 'N': goto yy463;
+		default: goto yy35;
 	}
 yy394:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy466;
-	default:	goto yy49;
+		case 'T': goto yy465;
+		default: goto yy35;
 	}
 yy395:
-	yyaccept = 28;
+	yyaccept = 33;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy396;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy396;
 	}
 yy396:
-#line 11656 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-#line 16499 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1846 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
+#line 17504 "asn_compiler.hpp"
 yy397:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy468;
-	default:	goto yy49;
+		case 'E': goto yy466;
+		default: goto yy35;
 	}
 yy398:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy469;
-	default:	goto yy49;
+		case 'A': goto yy467;
+		default: goto yy35;
 	}
 yy399:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy470;
-	default:	goto yy49;
+		case 'N': goto yy468;
+		default: goto yy35;
 	}
 yy400:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy471;
-	default:	goto yy49;
+		case 'I': goto yy469;
+		default: goto yy35;
 	}
 yy401:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy472;
-	default:	goto yy49;
+		case 'T': goto yy470;
+		default: goto yy35;
 	}
 yy402:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy473;
-	default:	goto yy49;
+		case 'T': goto yy472;
+		default: goto yy35;
 	}
 yy403:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy474;
-	default:	goto yy49;
+		case 'O': goto yy473;
+		default: goto yy35;
 	}
 yy404:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy475;
-	default:	goto yy49;
+		case 'E': goto yy474;
+		default: goto yy35;
 	}
 yy405:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy476;
-	default:	goto yy49;
+		case 'D': goto yy475;
+		default: goto yy35;
 	}
 yy406:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy477;
-	default:	goto yy49;
+		case 'N': goto yy477;
+		default: goto yy35;
 	}
 yy407:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy478;
-	default:	goto yy49;
+		case 'A': goto yy478;
+		default: goto yy35;
 	}
 yy408:
-	yyaccept = 2;
+	yyaccept = 34;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy479;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy409;
 	}
 yy409:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'X':	goto yy481;
-	default:	goto yy49;
-	}
+#line 1862 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
+#line 17655 "asn_compiler.hpp"
 yy410:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy483;
-	default:	goto yy49;
+		case 'I': goto yy479;
+		default: goto yy35;
 	}
 yy411:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'O':	goto yy484;
-	default:	goto yy101;
+		case 'S': goto yy480;
+		default: goto yy35;
 	}
 yy412:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'I':	goto yy485;
-	default:	goto yy101;
+		case 'I': goto yy482;
+		default: goto yy35;
 	}
 yy413:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy486;
-	default:	goto yy49;
+		case 'A': goto yy483;
+		default: goto yy35;
 	}
 yy414:
-	yyaccept = 29;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy415;
+		case 'l': goto yy484;
+		default: goto yy35;
 	}
 yy415:
-#line 11682 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-#line 16814 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'c': goto yy485;
+		default: goto yy35;
+	}
 yy416:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy487;
-	default:	goto yy49;
+		case 'i': goto yy486;
+		default: goto yy35;
 	}
 yy417:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy489;
-	default:	goto yy49;
+		case 'F': goto yy487;
+		default: goto yy35;
 	}
 yy418:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'm':	goto yy490;
-	default:	goto yy49;
+		case 'I': goto yy488;
+		default: goto yy35;
 	}
 yy419:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy491;
-	default:	goto yy49;
+		case 'D': goto yy489;
+		default: goto yy35;
 	}
 yy420:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy492;
-	default:	goto yy49;
+		case 'S': goto yy491;
+		default: goto yy35;
 	}
 yy421:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy493;
-	default:	goto yy49;
+		case 'E': goto yy493;
+		default: goto yy35;
 	}
 yy422:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy494;
-	default:	goto yy49;
+		case 'C': goto yy494;
+		default: goto yy35;
 	}
 yy423:
-	yyaccept = 30;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy424;
+		case 'C': goto yy495;
+		default: goto yy35;
 	}
 yy424:
-#line 11599 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-#line 16937 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'R': goto yy496;
+		default: goto yy35;
+	}
 yy425:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy495;
-	default:	goto yy49;
+		case 'E': goto yy498;
+		default: goto yy35;
 	}
 yy426:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy496;
-	default:	goto yy49;
+		case 'S': goto yy499;
+		default: goto yy35;
 	}
 yy427:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'T':	goto yy497;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy500;
+		default: goto yy57;
 	}
 yy428:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'i':	goto yy498;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'N': goto yy501;
+		default: goto yy57;
 	}
 yy429:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy499;
-	default:	goto yy49;
+		case 'c': goto yy502;
+		default: goto yy35;
 	}
 yy430:
-	yyaccept = 2;
+	yyaccept = 35;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy501;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy431;
 	}
 yy431:
-	yyaccept = 31;
-	yych = *(YYMARKER = ++context_.cursor);
+#line 1889 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
+#line 17991 "asn_compiler.hpp"
+yy432:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy432;
+		case 'I': goto yy503;
+		default: goto yy35;
 	}
-yy432:
-#line 11611 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-#line 17053 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy433:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy502;
-	default:	goto yy49;
+		case 'A': goto yy505;
+		default: goto yy35;
 	}
 yy434:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy503;
-	default:	goto yy49;
+		case 'D': goto yy506;
+		default: goto yy35;
 	}
 yy435:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy504;
-	default:	goto yy49;
+		case 'N': goto yy507;
+		default: goto yy35;
 	}
 yy436:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy505;
-	default:	goto yy49;
+		case 'N': goto yy509;
+		default: goto yy35;
 	}
 yy437:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy506;
-	default:	goto yy49;
+		case 'T': goto yy510;
+		default: goto yy35;
 	}
 yy438:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy508;
-	default:	goto yy49;
+		case 'E': goto yy512;
+		default: goto yy35;
 	}
 yy439:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy509;
-	default:	goto yy49;
+		case 'b': goto yy514;
+		default: goto yy35;
 	}
 yy440:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy510;
-	default:	goto yy49;
+		case 'V': goto yy515;
+		default: goto yy35;
 	}
 yy441:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy511;
-	default:	goto yy49;
+		case 'C': goto yy516;
+		default: goto yy35;
 	}
 yy442:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy513;
-	default:	goto yy49;
+		case 'G': goto yy517;
+		default: goto yy35;
 	}
 yy443:
-	yyaccept = 2;
+	yyaccept = 36;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy514;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy444;
 	}
 yy444:
-	yyaccept = 32;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy445;
-	}
+#line 1908 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
+#line 18142 "asn_compiler.hpp"
 yy445:
-#line 11627 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-#line 17204 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy446:
-	yyaccept = 2;
+	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy515;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy446;
 	}
+yy446:
+#line 1909 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
+#line 18216 "asn_compiler.hpp"
 yy447:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy516;
-	default:	goto yy49;
+		case 'i': goto yy518;
+		default: goto yy35;
 	}
 yy448:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy518;
-	default:	goto yy49;
+		case 'F': goto yy519;
+		default: goto yy35;
 	}
 yy449:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy519;
-	default:	goto yy49;
+		case 'D': goto yy520;
+		default: goto yy35;
 	}
 yy450:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy520;
-	default:	goto yy49;
+		case 'x': goto yy521;
+		default: goto yy35;
 	}
 yy451:
-	yyaccept = 2;
+	yyaccept = 38;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy521;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy452;
 	}
 yy452:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'i':	goto yy522;
-	default:	goto yy49;
-	}
+#line 1918 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
+#line 18318 "asn_compiler.hpp"
 yy453:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy523;
-	default:	goto yy49;
+		case 'S': goto yy522;
+		default: goto yy35;
 	}
 yy454:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy524;
-	default:	goto yy49;
+		case 'e': goto yy523;
+		default: goto yy35;
 	}
 yy455:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy525;
-	default:	goto yy49;
+		case 'r': goto yy525;
+		default: goto yy35;
 	}
 yy456:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy527;
-	default:	goto yy49;
+		case 's': goto yy526;
+		default: goto yy35;
 	}
 yy457:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy529;
-	default:	goto yy49;
+		case 'e': goto yy527;
+		default: goto yy35;
 	}
 yy458:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy530;
-	default:	goto yy49;
+		case 'e': goto yy528;
+		default: goto yy35;
 	}
 yy459:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy531;
-	default:	goto yy49;
+		case 'T': goto yy529;
+		default: goto yy35;
 	}
 yy460:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy532;
-	default:	goto yy49;
+		case 'T': goto yy530;
+		default: goto yy35;
 	}
 yy461:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy534;
-	default:	goto yy49;
+		case 'I': goto yy531;
+		default: goto yy35;
 	}
 yy462:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy535;
-	default:	goto yy49;
+		case 'n': goto yy532;
+		default: goto yy35;
 	}
 yy463:
-	yych = *++context_.cursor;
+	yyaccept = 39;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'I':	goto yy536;
-	default:	goto yy101;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy464;
 	}
 yy464:
-	yych = *++context_.cursor;
-	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'N':	goto yy537;
-	default:	goto yy101;
-	}
+#line 1843 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
+#line 18462 "asn_compiler.hpp"
 yy465:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy538;
-	default:	goto yy49;
+		case 'E': goto yy533;
+		default: goto yy35;
 	}
 yy466:
-	yyaccept = 33;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy467;
+		case 'N': goto yy534;
+		default: goto yy35;
 	}
 yy467:
-#line 11654 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-#line 17540 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy535;
+		default: goto yy35;
+	}
 yy468:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy539;
-	default:	goto yy49;
+		case 'I': goto yy536;
+		default: goto yy35;
 	}
 yy469:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy541;
-	default:	goto yy49;
+		case 'M': goto yy537;
+		default: goto yy35;
 	}
 yy470:
-	yyaccept = 2;
+	yyaccept = 40;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy542;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy471;
 	}
 yy471:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'N':	goto yy543;
-	default:	goto yy49;
-	}
+#line 1854 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
+#line 18571 "asn_compiler.hpp"
 yy472:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy545;
-	default:	goto yy49;
+		case 'I': goto yy538;
+		default: goto yy35;
 	}
 yy473:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy546;
-	default:	goto yy49;
+		case 'N': goto yy539;
+		default: goto yy35;
 	}
 yy474:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy548;
-	default:	goto yy49;
+		case 'D': goto yy541;
+		default: goto yy35;
 	}
 yy475:
-	yyaccept = 2;
+	yyaccept = 41;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'b':	goto yy550;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy476;
 	}
 yy476:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'V':	goto yy551;
-	default:	goto yy49;
-	}
+#line 1858 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
+#line 18666 "asn_compiler.hpp"
 yy477:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy552;
-	default:	goto yy49;
+		case 'G': goto yy543;
+		default: goto yy35;
 	}
 yy478:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy553;
-	default:	goto yy49;
+		case 'T': goto yy544;
+		default: goto yy35;
 	}
 yy479:
-	yyaccept = 34;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy480;
+		case 'T': goto yy545;
+		default: goto yy35;
 	}
 yy480:
-#line 11673 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-#line 17691 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy481:
-	yyaccept = 35;
+	yyaccept = 42;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy482;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy481;
 	}
+yy481:
+#line 1864 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
+#line 18761 "asn_compiler.hpp"
 yy482:
-#line 11674 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-#line 17765 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'B': goto yy547;
+		default: goto yy35;
+	}
 yy483:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy554;
-	default:	goto yy49;
+		case 'L': goto yy548;
+		default: goto yy35;
 	}
 yy484:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy555;
-	default:	goto yy49;
+		case 'S': goto yy550;
+		case 'i': goto yy551;
+		default: goto yy35;
 	}
 yy485:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy556;
-	default:	goto yy49;
+		case 'S': goto yy552;
+		default: goto yy35;
 	}
 yy486:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'x':	goto yy557;
-	default:	goto yy49;
+		case 'n': goto yy553;
+		default: goto yy35;
 	}
 yy487:
-	yyaccept = 36;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy488;
+		case 'I': goto yy554;
+		default: goto yy35;
 	}
 yy488:
-#line 11683 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-#line 17867 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy489:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy558;
-	default:	goto yy49;
+		case 'T': goto yy555;
+		default: goto yy35;
 	}
-yy490:
-	yyaccept = 2;
+yy489:
+	yyaccept = 43;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy559;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy490;
 	}
+yy490:
+#line 1875 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
+#line 18885 "asn_compiler.hpp"
 yy491:
-	yyaccept = 2;
+	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy561;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy492;
 	}
 yy492:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 's':	goto yy562;
-	default:	goto yy49;
-	}
+#line 1876 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
+#line 18959 "asn_compiler.hpp"
 yy493:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy563;
-	default:	goto yy49;
+		case 'S': goto yy557;
+		default: goto yy35;
 	}
 yy494:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy564;
-	default:	goto yy49;
+		case 'E': goto yy559;
+		default: goto yy35;
 	}
 yy495:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy565;
-	default:	goto yy49;
+		case 'T': goto yy561;
+		default: goto yy35;
 	}
 yy496:
-	yyaccept = 2;
+	yyaccept = 45;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy566;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy497;
 	}
 yy497:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'I':	goto yy567;
-	default:	goto yy49;
-	}
+#line 1880 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
+#line 19054 "asn_compiler.hpp"
 yy498:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy568;
-	default:	goto yy49;
+		case 'C': goto yy562;
+		default: goto yy35;
 	}
 yy499:
-	yyaccept = 37;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy500;
+		case 't': goto yy563;
+		default: goto yy35;
 	}
 yy500:
-#line 11608 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-#line 18011 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy564;
+		default: goto yy35;
+	}
 yy501:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy569;
-	default:	goto yy49;
+		case 'U': goto yy565;
+		default: goto yy35;
 	}
 yy502:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy570;
-	default:	goto yy49;
+		case 'S': goto yy566;
+		default: goto yy35;
 	}
 yy503:
-	yyaccept = 2;
+	yyaccept = 46;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy571;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy504;
 	}
 yy504:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'I':	goto yy572;
-	default:	goto yy49;
-	}
+#line 1893 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
+#line 19163 "asn_compiler.hpp"
 yy505:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy573;
-	default:	goto yy49;
+		case 'L': goto yy567;
+		default: goto yy35;
 	}
 yy506:
-	yyaccept = 38;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy507;
+		case 'e': goto yy569;
+		default: goto yy35;
 	}
 yy507:
-#line 11619 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-#line 18120 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy508:
-	yyaccept = 2;
+	yyaccept = 47;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy574;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy508;
 	}
+yy508:
+#line 1895 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
+#line 19251 "asn_compiler.hpp"
 yy509:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy575;
-	default:	goto yy49;
+		case 'F': goto yy570;
+		default: goto yy35;
 	}
 yy510:
-	yyaccept = 2;
+	yyaccept = 48;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy577;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy511;
 	}
 yy511:
-	yyaccept = 39;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy512;
-	}
+#line 1898 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
+#line 19332 "asn_compiler.hpp"
 yy512:
-#line 11623 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-#line 18215 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy513:
-	yyaccept = 2;
+	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy579;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy513;
 	}
+yy513:
+#line 1900 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
+#line 19406 "asn_compiler.hpp"
 yy514:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy580;
-	default:	goto yy49;
+		case 'l': goto yy571;
+		default: goto yy35;
 	}
 yy515:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy581;
-	default:	goto yy49;
+		case 'E': goto yy572;
+		default: goto yy35;
 	}
 yy516:
-	yyaccept = 40;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy517;
+		case 'E': goto yy573;
+		default: goto yy35;
 	}
 yy517:
-#line 11629 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-#line 18310 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy575;
+		default: goto yy35;
+	}
 yy518:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy583;
-	default:	goto yy49;
+		case 'n': goto yy577;
+		default: goto yy35;
 	}
 yy519:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy584;
-	default:	goto yy49;
+		case '-': goto yy578;
+		default: goto yy35;
 	}
 yy520:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy586;
-	case 'i':	goto yy587;
-	default:	goto yy49;
+		case 'E': goto yy579;
+		default: goto yy35;
 	}
 yy521:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy588;
-	default:	goto yy49;
+		case 'S': goto yy580;
+		default: goto yy35;
 	}
 yy522:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy589;
-	default:	goto yy49;
+		case 'A': goto yy581;
+		default: goto yy35;
 	}
 yy523:
-	yyaccept = 2;
+	yyaccept = 50;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy590;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy524;
 	}
 yy524:
-	yyaccept = 2;
+#line 1921 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
+#line 19543 "asn_compiler.hpp"
+yy525:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy591;
-	default:	goto yy49;
+		case 'i': goto yy582;
+		default: goto yy35;
 	}
-yy525:
-	yyaccept = 41;
+yy526:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy526;
+		case 'a': goto yy583;
+		default: goto yy35;
 	}
-yy526:
-#line 11640 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-#line 18434 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy527:
-	yyaccept = 42;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy528;
+		case 'x': goto yy584;
+		default: goto yy35;
 	}
 yy528:
-#line 11641 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-#line 18508 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy529:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy593;
-	default:	goto yy49;
+		case 'S': goto yy585;
+		default: goto yy35;
 	}
-yy530:
-	yyaccept = 2;
+yy529:
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy586;
+		default: goto yy35;
+	}
+yy530:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy595;
-	default:	goto yy49;
+		case 'I': goto yy587;
+		default: goto yy35;
 	}
 yy531:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy597;
-	default:	goto yy49;
+		case 'C': goto yy588;
+		default: goto yy35;
 	}
 yy532:
-	yyaccept = 43;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy533;
+		case 'g': goto yy590;
+		default: goto yy35;
 	}
 yy533:
-#line 11645 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-#line 18603 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'R': goto yy592;
+		default: goto yy35;
+	}
 yy534:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy598;
-	default:	goto yy49;
+		case 'T': goto yy594;
+		default: goto yy35;
 	}
 yy535:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy599;
-	default:	goto yy49;
+		case 'N': goto yy596;
+		default: goto yy35;
 	}
 yy536:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy600;
-	default:	goto yy49;
+		case 'N': goto yy597;
+		default: goto yy35;
 	}
 yy537:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy601;
-	default:	goto yy49;
+		case 'E': goto yy598;
+		default: goto yy35;
 	}
 yy538:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy602;
-	default:	goto yy49;
+		case 'O': goto yy600;
+		default: goto yy35;
 	}
 yy539:
-	yyaccept = 44;
+	yyaccept = 51;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy540;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy540;
 	}
 yy540:
-#line 11658 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-#line 18712 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1856 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
+#line 19715 "asn_compiler.hpp"
 yy541:
-	yyaccept = 2;
+	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy603;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy542;
 	}
 yy542:
-	yyaccept = 2;
+#line 1857 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
+#line 19789 "asn_compiler.hpp"
+yy543:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy605;
-	default:	goto yy49;
+		case '-': goto yy601;
+		default: goto yy35;
 	}
-yy543:
-	yyaccept = 45;
+yy544:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy544;
+		case 'E': goto yy602;
+		default: goto yy35;
 	}
-yy544:
-#line 11660 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-#line 18800 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy545:
-	yyaccept = 2;
+	yyaccept = 53;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy606;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy546;
 	}
 yy546:
-	yyaccept = 46;
+#line 1863 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
+#line 19877 "asn_compiler.hpp"
+yy547:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy547;
+		case 'I': goto yy603;
+		default: goto yy35;
 	}
-yy547:
-#line 11663 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-#line 18881 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy548:
-	yyaccept = 47;
+	yyaccept = 54;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy549;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy549;
 	}
 yy549:
-#line 11665 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-#line 18955 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1866 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
+#line 19958 "asn_compiler.hpp"
 yy550:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy607;
-	default:	goto yy49;
+		case 't': goto yy604;
+		default: goto yy35;
 	}
 yy551:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy608;
-	default:	goto yy49;
+		case 'z': goto yy605;
+		default: goto yy35;
 	}
 yy552:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy609;
-	default:	goto yy49;
+		case 't': goto yy606;
+		default: goto yy35;
 	}
 yy553:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy611;
-	default:	goto yy49;
+		case 'g': goto yy607;
+		default: goto yy35;
 	}
 yy554:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy613;
-	default:	goto yy49;
+		case 'E': goto yy609;
+		default: goto yy35;
 	}
 yy555:
-	yyaccept = 2;
+	yyaccept = 55;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy614;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy556;
 	}
 yy556:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'E':	goto yy615;
-	default:	goto yy49;
-	}
+#line 1874 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
+#line 20067 "asn_compiler.hpp"
 yy557:
-	yyaccept = 2;
+	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy616;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy558;
 	}
 yy558:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'A':	goto yy617;
-	default:	goto yy49;
-	}
+#line 1877 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
+#line 20141 "asn_compiler.hpp"
 yy559:
-	yyaccept = 48;
+	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy560;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy560;
 	}
 yy560:
-#line 11686 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-#line 19092 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1878 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
+#line 20215 "asn_compiler.hpp"
 yy561:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy618;
-	default:	goto yy49;
+		case 'I': goto yy610;
+		default: goto yy35;
 	}
 yy562:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy619;
-	default:	goto yy49;
+		case 'T': goto yy611;
+		default: goto yy35;
 	}
 yy563:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'x':	goto yy620;
-	default:	goto yy49;
+		case 'r': goto yy612;
+		default: goto yy35;
 	}
 yy564:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy621;
-	default:	goto yy49;
+		case 'F': goto yy613;
+		default: goto yy35;
 	}
 yy565:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy622;
-	default:	goto yy49;
+		case 'M': goto yy614;
+		default: goto yy35;
 	}
 yy566:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy623;
-	default:	goto yy49;
+		case 't': goto yy615;
+		default: goto yy35;
 	}
 yy567:
-	yyaccept = 2;
+	yyaccept = 58;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy624;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy568;
 	}
 yy568:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'g':	goto yy626;
-	default:	goto yy49;
-	}
+#line 1894 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
+#line 20331 "asn_compiler.hpp"
 yy569:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy628;
-	default:	goto yy49;
+		case 's': goto yy616;
+		default: goto yy35;
 	}
 yy570:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy630;
-	default:	goto yy49;
+		case 'I': goto yy617;
+		default: goto yy35;
 	}
 yy571:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy632;
-	default:	goto yy49;
+		case 'e': goto yy618;
+		default: goto yy35;
 	}
 yy572:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy633;
-	default:	goto yy49;
+		case '-': goto yy619;
+		default: goto yy35;
 	}
 yy573:
-	yyaccept = 2;
+	yyaccept = 59;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy634;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy574;
 	}
 yy574:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'O':	goto yy636;
-	default:	goto yy49;
-	}
+#line 1904 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
+#line 20433 "asn_compiler.hpp"
 yy575:
-	yyaccept = 49;
+	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy576;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy576;
 	}
 yy576:
-#line 11621 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-#line 19264 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1906 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
+#line 20507 "asn_compiler.hpp"
 yy577:
-	yyaccept = 50;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy578;
+		case 'g': goto yy620;
+		default: goto yy35;
 	}
 yy578:
-#line 11622 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-#line 19338 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'D': goto yy622;
+		default: goto yy57;
+	}
 yy579:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '_':	goto yy637;
-	default:	goto yy49;
+		case 'N': goto yy623;
+		default: goto yy35;
 	}
 yy580:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy638;
-	default:	goto yy49;
+		case 't': goto yy624;
+		default: goto yy35;
 	}
 yy581:
-	yyaccept = 51;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy582;
+		case 'L': goto yy625;
+		default: goto yy35;
 	}
 yy582:
-#line 11628 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-#line 19426 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'n': goto yy627;
+		default: goto yy35;
+	}
 yy583:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy639;
-	default:	goto yy49;
+		case 'l': goto yy628;
+		default: goto yy35;
 	}
 yy584:
-	yyaccept = 52;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy585;
+		case 'S': goto yy629;
+		default: goto yy35;
 	}
 yy585:
-#line 11631 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-#line 19507 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy586:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy640;
-	default:	goto yy49;
+		case 't': goto yy630;
+		default: goto yy35;
+	}
+yy586:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'S': goto yy631;
+		default: goto yy57;
 	}
 yy587:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'z':	goto yy641;
-	default:	goto yy49;
+		case 'O': goto yy632;
+		default: goto yy35;
 	}
 yy588:
-	yyaccept = 2;
+	yyaccept = 61;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy642;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy589;
 	}
 yy589:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'g':	goto yy643;
-	default:	goto yy49;
-	}
+#line 1839 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
+#line 20780 "asn_compiler.hpp"
 yy590:
-	yyaccept = 2;
+	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy645;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy591;
 	}
 yy591:
-	yyaccept = 53;
+#line 1842 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
+#line 20854 "asn_compiler.hpp"
+yy592:
+	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy592;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy593;
 	}
-yy592:
-#line 11639 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-#line 19616 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy593:
-	yyaccept = 54;
+#line 1845 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
+#line 20928 "asn_compiler.hpp"
+yy594:
+	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy594;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'S': goto yy633;
+		default: goto yy595;
 	}
-yy594:
-#line 11642 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-#line 19690 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy595:
-	yyaccept = 55;
+#line 1848 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
+#line 21002 "asn_compiler.hpp"
+yy596:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy596;
+		case 'E': goto yy635;
+		default: goto yy35;
 	}
-yy596:
-#line 11643 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-#line 19764 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy597:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy646;
-	default:	goto yy49;
+		case 'G': goto yy636;
+		default: goto yy35;
 	}
 yy598:
-	yyaccept = 2;
+	yyaccept = 65;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy647;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy599;
 	}
 yy599:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'r':	goto yy648;
-	default:	goto yy49;
-	}
+#line 1853 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
+#line 21090 "asn_compiler.hpp"
 yy600:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy649;
-	default:	goto yy49;
+		case 'N': goto yy638;
+		default: goto yy35;
 	}
 yy601:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'M':	goto yy650;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'C': goto yy639;
+		default: goto yy57;
 	}
 yy602:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy651;
-	default:	goto yy49;
+		case 'D': goto yy640;
+		default: goto yy35;
 	}
 yy603:
-	yyaccept = 56;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy604;
+		case 'L': goto yy642;
+		default: goto yy35;
 	}
 yy604:
-#line 11659 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-#line 19880 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'r': goto yy643;
+		default: goto yy35;
+	}
 yy605:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 's':	goto yy652;
-	default:	goto yy49;
+		case 'e': goto yy644;
+		default: goto yy35;
 	}
 yy606:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy653;
-	default:	goto yy49;
+		case 'r': goto yy645;
+		default: goto yy35;
 	}
 yy607:
-	yyaccept = 2;
+	yyaccept = 66;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy654;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy608;
 	}
 yy608:
-	yyaccept = 2;
+#line 1872 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
+#line 21274 "asn_compiler.hpp"
+yy609:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy655;
-	default:	goto yy49;
+		case 'R': goto yy646;
+		default: goto yy35;
 	}
-yy609:
-	yyaccept = 57;
+yy610:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy610;
+		case 'O': goto yy648;
+		default: goto yy35;
 	}
-yy610:
-#line 11669 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-#line 19982 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy611:
-	yyaccept = 58;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy612;
+		case 'I': goto yy649;
+		default: goto yy35;
 	}
 yy612:
-#line 11671 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-#line 20056 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'i': goto yy650;
+		default: goto yy35;
+	}
 yy613:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy656;
-	default:	goto yy49;
+		case 'I': goto yy651;
+		default: goto yy35;
 	}
 yy614:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'D':	goto yy658;
-	default:	goto yy101;
+		case 'B': goto yy652;
+		default: goto yy35;
 	}
 yy615:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy659;
-	default:	goto yy49;
+		case 'r': goto yy653;
+		default: goto yy35;
 	}
 yy616:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy660;
-	default:	goto yy49;
+		case 'c': goto yy654;
+		default: goto yy35;
 	}
 yy617:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy661;
-	default:	goto yy49;
+		case 'N': goto yy655;
+		default: goto yy35;
 	}
 yy618:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy663;
-	default:	goto yy49;
+		case 'S': goto yy656;
+		default: goto yy35;
 	}
 yy619:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case 'l':	goto yy664;
-	default:	goto yy49;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'O': goto yy657;
+		default: goto yy57;
 	}
 yy620:
-	yyaccept = 2;
+	yyaccept = 67;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy665;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy621;
 	}
 yy621:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 't':	goto yy666;
-	default:	goto yy49;
-	}
+#line 1910 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
+#line 21486 "asn_compiler.hpp"
 yy622:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'S':	goto yy667;
-	default:	goto yy101;
+		case 'A': goto yy658;
+		default: goto yy35;
 	}
 yy623:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy668;
-	default:	goto yy49;
+		case 'T': goto yy659;
+		default: goto yy35;
 	}
 yy624:
-	yyaccept = 59;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy625;
+		case 'r': goto yy660;
+		default: goto yy35;
 	}
 yy625:
-#line 11604 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-#line 20329 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy626:
-	yyaccept = 60;
+	yyaccept = 68;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy627;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy626;
 	}
+yy626:
+#line 1919 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
+#line 21581 "asn_compiler.hpp"
 yy627:
-#line 11607 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-#line 20403 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'g': goto yy661;
+		default: goto yy35;
+	}
 yy628:
-	yyaccept = 61;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy629;
+		case 'S': goto yy663;
+		default: goto yy35;
 	}
 yy629:
-#line 11610 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-#line 20477 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 't': goto yy664;
+		default: goto yy35;
+	}
 yy630:
-	yyaccept = 62;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'S':	goto yy669;
-	default:	goto yy631;
+		case 'r': goto yy665;
+		default: goto yy35;
 	}
 yy631:
-#line 11613 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-#line 20551 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'Y': goto yy666;
+		default: goto yy35;
+	}
 yy632:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy671;
-	default:	goto yy49;
+		case 'N': goto yy667;
+		default: goto yy35;
 	}
 yy633:
-	yyaccept = 2;
+	yyaccept = 69;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy672;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy634;
 	}
 yy634:
-	yyaccept = 63;
+#line 1849 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
+#line 21697 "asn_compiler.hpp"
+yy635:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy635;
+		case 'D': goto yy669;
+		default: goto yy35;
 	}
-yy635:
-#line 11618 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-#line 20639 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy636:
-	yyaccept = 2;
+	yyaccept = 70;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy674;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy637;
 	}
 yy637:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'C':	goto yy675;
-	default:	goto yy49;
-	}
+#line 1851 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
+#line 21778 "asn_compiler.hpp"
 yy638:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy676;
-	default:	goto yy49;
+		case 'S': goto yy671;
+		default: goto yy35;
 	}
 yy639:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy678;
-	default:	goto yy49;
+		case 'O': goto yy673;
+		default: goto yy35;
 	}
 yy640:
-	yyaccept = 2;
+	yyaccept = 71;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy679;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy641;
 	}
 yy641:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'e':	goto yy680;
-	default:	goto yy49;
-	}
+#line 1861 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
+#line 21866 "asn_compiler.hpp"
 yy642:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy681;
-	default:	goto yy49;
+		case 'I': goto yy674;
+		default: goto yy35;
 	}
 yy643:
-	yyaccept = 64;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy644;
+		case 'i': goto yy675;
+		default: goto yy35;
 	}
 yy644:
-#line 11637 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-#line 20762 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy645:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy682;
-	default:	goto yy49;
+		case 'd': goto yy676;
+		default: goto yy35;
 	}
-yy646:
-	yyaccept = 2;
+yy645:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy684;
-	default:	goto yy49;
+		case 'i': goto yy677;
+		default: goto yy35;
 	}
-yy647:
-	yyaccept = 2;
+yy646:
+	yyaccept = 72;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy685;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy647;
 	}
+yy647:
+#line 1873 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
+#line 21968 "asn_compiler.hpp"
 yy648:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy686;
-	default:	goto yy49;
+		case 'N': goto yy678;
+		default: goto yy35;
 	}
 yy649:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy687;
-	default:	goto yy49;
+		case 'O': goto yy679;
+		default: goto yy35;
 	}
 yy650:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy688;
-	default:	goto yy49;
+		case 'n': goto yy680;
+		default: goto yy35;
 	}
 yy651:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy689;
-	default:	goto yy49;
+		case 'N': goto yy681;
+		default: goto yy35;
 	}
 yy652:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy690;
-	default:	goto yy49;
+		case 'E': goto yy682;
+		default: goto yy35;
 	}
 yy653:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy691;
-	default:	goto yy49;
+		case 'i': goto yy683;
+		default: goto yy35;
 	}
 yy654:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy692;
-	default:	goto yy49;
+		case 'r': goto yy684;
+		default: goto yy35;
 	}
 yy655:
-	yych = *++context_.cursor;
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'O':	goto yy693;
-	default:	goto yy101;
+		case 'I': goto yy685;
+		default: goto yy35;
 	}
 yy656:
-	yyaccept = 65;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy657;
+		case 't': goto yy686;
+		default: goto yy35;
 	}
 yy657:
-#line 11675 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-#line 20974 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy687;
+		default: goto yy35;
+	}
 yy658:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy694;
-	default:	goto yy49;
+		case 'Y': goto yy688;
+		default: goto yy35;
 	}
 yy659:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy695;
-	default:	goto yy49;
+		case 'I': goto yy690;
+		default: goto yy35;
 	}
 yy660:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy696;
-	default:	goto yy49;
+		case 'i': goto yy691;
+		default: goto yy35;
 	}
 yy661:
-	yyaccept = 66;
+	yyaccept = 73;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy662;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy662;
 	}
 yy662:
-#line 11684 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-#line 21069 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1922 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
+#line 22133 "asn_compiler.hpp"
 yy663:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy697;
-	default:	goto yy49;
+		case 't': goto yy692;
+		default: goto yy35;
 	}
 yy664:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy699;
-	default:	goto yy49;
+		case 'r': goto yy693;
+		default: goto yy35;
 	}
 yy665:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy700;
-	default:	goto yy49;
+		case 'i': goto yy694;
+		default: goto yy35;
 	}
 yy666:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy701;
-	default:	goto yy49;
+		case 'N': goto yy695;
+		default: goto yy35;
 	}
 yy667:
-	yyaccept = 2;
+	yyaccept = 74;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy702;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy668;
 	}
 yy668:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'N':	goto yy703;
-	default:	goto yy49;
-	}
+#line 1838 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
+#line 22235 "asn_compiler.hpp"
 yy669:
-	yyaccept = 67;
+	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy670;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy670;
 	}
 yy670:
-#line 11614 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-#line 21185 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1850 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
+#line 22309 "asn_compiler.hpp"
 yy671:
-	yyaccept = 2;
+	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy705;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy672;
 	}
 yy672:
-	yyaccept = 68;
+#line 1855 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
+#line 22383 "asn_compiler.hpp"
+yy673:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy673;
+		case 'N': goto yy696;
+		default: goto yy35;
 	}
-yy673:
-#line 11616 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-#line 21266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy674:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy707;
-	default:	goto yy49;
+		case 'T': goto yy697;
+		default: goto yy35;
 	}
 yy675:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy709;
-	default:	goto yy49;
+		case 'n': goto yy698;
+		default: goto yy35;
 	}
 yy676:
-	yyaccept = 69;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy677;
+		case 'T': goto yy699;
+		default: goto yy35;
 	}
 yy677:
-#line 11626 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-#line 21354 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'n': goto yy700;
+		default: goto yy35;
+	}
 yy678:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy710;
-	default:	goto yy49;
+		case 'S': goto yy701;
+		default: goto yy35;
 	}
 yy679:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy711;
-	default:	goto yy49;
+		case 'N': goto yy703;
+		default: goto yy35;
 	}
 yy680:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'd':	goto yy712;
-	default:	goto yy49;
+		case 'g': goto yy705;
+		default: goto yy35;
 	}
 yy681:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy713;
-	default:	goto yy49;
+		case 'I': goto yy707;
+		default: goto yy35;
 	}
 yy682:
-	yyaccept = 70;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy683;
+		case 'R': goto yy708;
+		default: goto yy35;
 	}
 yy683:
-#line 11638 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-#line 21456 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'n': goto yy710;
+		default: goto yy35;
+	}
 yy684:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy714;
-	default:	goto yy49;
+		case 'i': goto yy711;
+		default: goto yy35;
 	}
 yy685:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy715;
-	default:	goto yy49;
+		case 'T': goto yy712;
+		default: goto yy35;
 	}
 yy686:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy716;
-	default:	goto yy49;
+		case 'r': goto yy713;
+		default: goto yy35;
 	}
 yy687:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy717;
-	default:	goto yy49;
+		case 'D': goto yy714;
+		default: goto yy35;
 	}
 yy688:
-	yyaccept = 2;
+	yyaccept = 77;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy718;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy689;
 	}
 yy689:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'i':	goto yy719;
-	default:	goto yy49;
-	}
+#line 1914 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
+#line 22562 "asn_compiler.hpp"
 yy690:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy720;
-	default:	goto yy49;
+		case 'F': goto yy716;
+		default: goto yy35;
 	}
 yy691:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy721;
-	default:	goto yy49;
+		case 'n': goto yy717;
+		default: goto yy35;
 	}
 yy692:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy722;
-	default:	goto yy49;
+		case 'r': goto yy718;
+		default: goto yy35;
 	}
 yy693:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy723;
-	default:	goto yy49;
+		case 'i': goto yy719;
+		default: goto yy35;
 	}
 yy694:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy724;
-	default:	goto yy49;
+		case 'n': goto yy720;
+		default: goto yy35;
 	}
 yy695:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy726;
-	default:	goto yy49;
+		case 'T': goto yy721;
+		default: goto yy35;
 	}
 yy696:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy727;
-	default:	goto yy49;
+		case 'T': goto yy722;
+		default: goto yy35;
 	}
 yy697:
-	yyaccept = 71;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy698;
+		case 'Y': goto yy723;
+		default: goto yy35;
 	}
 yy698:
-#line 11687 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-#line 21621 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'g': goto yy725;
+		default: goto yy35;
+	}
 yy699:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy728;
-	default:	goto yy49;
+		case 'i': goto yy727;
+		default: goto yy35;
 	}
 yy700:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy729;
-	default:	goto yy49;
+		case 'g': goto yy728;
+		default: goto yy35;
 	}
 yy701:
-	yyaccept = 2;
+	yyaccept = 78;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy730;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy702;
 	}
 yy702:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'N':	goto yy731;
-	default:	goto yy49;
-	}
+#line 1879 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
+#line 22713 "asn_compiler.hpp"
 yy703:
-	yyaccept = 72;
+	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy704;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy704;
 	}
 yy704:
-#line 11603 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-#line 21723 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1881 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
+#line 22787 "asn_compiler.hpp"
 yy705:
-	yyaccept = 73;
+	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy706;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy706;
 	}
 yy706:
-#line 11615 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-#line 21797 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1882 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
+#line 22861 "asn_compiler.hpp"
 yy707:
-	yyaccept = 74;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy708;
+		case 'T': goto yy730;
+		default: goto yy35;
 	}
 yy708:
-#line 11620 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-#line 21871 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy709:
-	yyaccept = 2;
+	yyaccept = 81;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy732;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy709;
 	}
+yy709:
+#line 1886 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
+#line 22942 "asn_compiler.hpp"
 yy710:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy733;
-	default:	goto yy49;
+		case 'g': goto yy731;
+		default: goto yy35;
 	}
 yy711:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy734;
-	default:	goto yy49;
+		case 'p': goto yy733;
+		default: goto yy35;
 	}
 yy712:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy735;
-	default:	goto yy49;
+		case 'Y': goto yy734;
+		default: goto yy35;
 	}
 yy713:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy736;
-	default:	goto yy49;
+		case 'i': goto yy736;
+		default: goto yy35;
 	}
 yy714:
-	yyaccept = 2;
+	yyaccept = 82;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy737;
-	default:	goto yy49;
+		case '-': goto yy737;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy715;
 	}
 yy715:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'N':	goto yy739;
-	default:	goto yy49;
-	}
+#line 1902 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
+#line 23044 "asn_compiler.hpp"
 yy716:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy741;
-	default:	goto yy49;
+		case 'I': goto yy738;
+		default: goto yy35;
 	}
 yy717:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy743;
-	default:	goto yy49;
+		case 'g': goto yy739;
+		default: goto yy35;
 	}
 yy718:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy744;
-	default:	goto yy49;
+		case 'i': goto yy741;
+		default: goto yy35;
 	}
 yy719:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy746;
-	default:	goto yy49;
+		case 'n': goto yy742;
+		default: goto yy35;
 	}
 yy720:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy747;
-	default:	goto yy49;
+		case 'g': goto yy743;
+		default: goto yy35;
 	}
 yy721:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy748;
-	default:	goto yy49;
+		case 'A': goto yy745;
+		default: goto yy35;
 	}
 yy722:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy749;
-	default:	goto yy49;
+		case 'R': goto yy746;
+		default: goto yy35;
 	}
 yy723:
-	yyaccept = 2;
+	yyaccept = 83;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy750;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy724;
 	}
 yy724:
-	yyaccept = 75;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy725;
-	}
+#line 1865 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
+#line 23167 "asn_compiler.hpp"
 yy725:
-#line 11679 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-#line 22050 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy726:
-	yyaccept = 2;
+	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy752;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy726;
 	}
+yy726:
+#line 1870 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
+#line 23241 "asn_compiler.hpp"
 yy727:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy753;
-	default:	goto yy49;
+		case 'm': goto yy747;
+		default: goto yy35;
 	}
 yy728:
-	yyaccept = 2;
+	yyaccept = 85;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy754;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy729;
 	}
 yy729:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'i':	goto yy755;
-	default:	goto yy49;
-	}
+#line 1871 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
+#line 23322 "asn_compiler.hpp"
 yy730:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy756;
-	default:	goto yy49;
+		case 'Y': goto yy748;
+		default: goto yy35;
 	}
 yy731:
-	yyaccept = 2;
+	yyaccept = 86;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy757;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy732;
 	}
 yy732:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'T':	goto yy758;
-	default:	goto yy49;
-	}
+#line 1888 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
+#line 23403 "asn_compiler.hpp"
 yy733:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy759;
-	default:	goto yy49;
+		case 't': goto yy750;
+		default: goto yy35;
 	}
 yy734:
-	yyaccept = 2;
+	yyaccept = 87;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy761;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy735;
 	}
 yy735:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'i':	goto yy763;
-	default:	goto yy49;
-	}
+#line 1897 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
+#line 23484 "asn_compiler.hpp"
 yy736:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy764;
-	default:	goto yy49;
+		case 'n': goto yy751;
+		default: goto yy35;
 	}
 yy737:
-	yyaccept = 76;
-	yych = *(YYMARKER = ++context_.cursor);
+	yych = *++context_.cursor;
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy738;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy752;
+		default: goto yy57;
 	}
 yy738:
-#line 11644 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-#line 22201 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy753;
+		default: goto yy35;
+	}
 yy739:
-	yyaccept = 77;
+	yyaccept = 88;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy740;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy740;
 	}
 yy740:
-#line 11646 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-#line 22275 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1912 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
+#line 23640 "asn_compiler.hpp"
 yy741:
-	yyaccept = 78;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy742;
+		case 'n': goto yy754;
+		default: goto yy35;
 	}
 yy742:
-#line 11647 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-#line 22349 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+	yyaccept = 3;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'g': goto yy755;
+		default: goto yy35;
+	}
 yy743:
-	yyaccept = 2;
+	yyaccept = 89;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy766;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy744;
 	}
 yy744:
-	yyaccept = 79;
+#line 1924 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
+#line 23728 "asn_compiler.hpp"
+yy745:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy745;
+		case 'X': goto yy757;
+		default: goto yy35;
 	}
-yy745:
-#line 11651 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-#line 22430 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy746:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy767;
-	default:	goto yy49;
+		case 'O': goto yy759;
+		default: goto yy35;
 	}
 yy747:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'p':	goto yy769;
-	default:	goto yy49;
+		case 'e': goto yy760;
+		default: goto yy35;
 	}
 yy748:
-	yyaccept = 2;
+	yyaccept = 90;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy770;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy749;
 	}
 yy749:
-	yyaccept = 2;
+#line 1885 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
+#line 23823 "asn_compiler.hpp"
+yy750:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy772;
-	default:	goto yy49;
+		case 'o': goto yy762;
+		default: goto yy35;
 	}
-yy750:
-	yyaccept = 80;
+yy751:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy773;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy751;
+		case 'g': goto yy763;
+		default: goto yy35;
 	}
-yy751:
-#line 11667 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-#line 22532 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy752:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy774;
-	default:	goto yy49;
+		case 'R': goto yy765;
+		default: goto yy35;
 	}
 yy753:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy775;
-	default:	goto yy49;
+		case 'R': goto yy766;
+		default: goto yy35;
 	}
 yy754:
-	yyaccept = 2;
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy777;
-	default:	goto yy49;
+		case 'g': goto yy768;
+		default: goto yy35;
 	}
 yy755:
-	yyaccept = 2;
+	yyaccept = 91;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy778;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy756;
 	}
 yy756:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'g':	goto yy779;
-	default:	goto yy49;
-	}
+#line 1923 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
+#line 23932 "asn_compiler.hpp"
 yy757:
-	yyaccept = 2;
+	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy781;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy758;
 	}
 yy758:
-	yyaccept = 2;
+#line 1835 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
+#line 24006 "asn_compiler.hpp"
+yy759:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy782;
-	default:	goto yy49;
+		case 'L': goto yy770;
+		default: goto yy35;
 	}
-yy759:
-	yyaccept = 81;
+yy760:
+	yyaccept = 93;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy760;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy761;
 	}
-yy760:
-#line 11630 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-#line 22655 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy761:
-	yyaccept = 82;
+#line 1869 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
+#line 24087 "asn_compiler.hpp"
+yy762:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy762;
+		case 'r': goto yy772;
+		default: goto yy35;
 	}
-yy762:
-#line 11635 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-#line 22729 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy763:
-	yyaccept = 2;
+	yyaccept = 94;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'm':	goto yy783;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy764;
 	}
 yy764:
-	yyaccept = 83;
+#line 1899 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
+#line 24168 "asn_compiler.hpp"
+yy765:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy765;
+		case 'I': goto yy774;
+		default: goto yy35;
 	}
-yy765:
-#line 11636 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-#line 22810 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 yy766:
-	yyaccept = 2;
+	yyaccept = 95;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy784;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy767;
 	}
 yy767:
-	yyaccept = 84;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy768;
-	}
+#line 1916 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
+#line 24249 "asn_compiler.hpp"
 yy768:
-#line 11653 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-#line 22891 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy769:
-	yyaccept = 2;
+	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy786;
-	default:	goto yy49;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy769;
 	}
+yy769:
+#line 1920 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
+#line 24323 "asn_compiler.hpp"
 yy770:
-	yyaccept = 85;
+	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy771;
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy771;
 	}
 yy771:
-#line 11662 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-#line 22972 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 1859 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
+#line 24397 "asn_compiler.hpp"
 yy772:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'n':	goto yy787;
-	default:	goto yy49;
+	yyaccept = 98;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy773;
 	}
 yy773:
-	yych = *++context_.cursor;
-	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'I':	goto yy788;
-	default:	goto yy101;
-	}
+#line 1890 "src/compiler/asn_compiler.yacc"
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
+#line 24471 "asn_compiler.hpp"
 yy774:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'E':	goto yy789;
-	default:	goto yy49;
+	yyaccept = 99;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy77;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy775;
 	}
 yy775:
-	yyaccept = 86;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy776;
-	}
-yy776:
-#line 11677 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-#line 23128 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy777:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'n':	goto yy790;
-	default:	goto yy49;
-	}
-yy778:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'g':	goto yy791;
-	default:	goto yy49;
-	}
-yy779:
-	yyaccept = 87;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy780;
-	}
-yy780:
-#line 11689 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-#line 23216 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy781:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'X':	goto yy793;
-	default:	goto yy49;
-	}
-yy782:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'O':	goto yy795;
-	default:	goto yy49;
-	}
-yy783:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'e':	goto yy796;
-	default:	goto yy49;
-	}
-yy784:
-	yyaccept = 88;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy785;
-	}
-yy785:
-#line 11650 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-#line 23311 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy786:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'o':	goto yy798;
-	default:	goto yy49;
-	}
-yy787:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'g':	goto yy799;
-	default:	goto yy49;
-	}
-yy788:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'R':	goto yy801;
-	default:	goto yy49;
-	}
-yy789:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'R':	goto yy802;
-	default:	goto yy49;
-	}
-yy790:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'g':	goto yy804;
-	default:	goto yy49;
-	}
-yy791:
-	yyaccept = 89;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy792;
-	}
-yy792:
-#line 11688 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-#line 23420 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy793:
-	yyaccept = 90;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy794;
-	}
-yy794:
-#line 11600 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-#line 23494 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy795:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'L':	goto yy806;
-	default:	goto yy49;
-	}
-yy796:
-	yyaccept = 91;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy797;
-	}
-yy797:
-#line 11634 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-#line 23575 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy798:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'r':	goto yy808;
-	default:	goto yy49;
-	}
-yy799:
-	yyaccept = 92;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy800;
-	}
-yy800:
-#line 11664 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-#line 23656 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy801:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case 'I':	goto yy810;
-	default:	goto yy49;
-	}
-yy802:
-	yyaccept = 93;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy803;
-	}
-yy803:
-#line 11681 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-#line 23737 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy804:
-	yyaccept = 94;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy805;
-	}
-yy805:
-#line 11685 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-#line 23811 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy806:
-	yyaccept = 95;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy807;
-	}
-yy807:
-#line 11624 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-#line 23885 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy808:
-	yyaccept = 96;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy809;
-	}
-yy809:
-#line 11655 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-#line 23959 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy810:
-	yyaccept = 97;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy811;
-	}
-yy811:
-#line 11668 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1903 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
-#line 24033 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
+#line 24545 "asn_compiler.hpp"
 }
-#line 11743 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+#line 1978 "src/compiler/asn_compiler.yacc"
 
+        }
     }
 }
-- 
2.43.0


From 053ae25c8a0166d490fb0d0fe587af58de9b4c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 35/53] fix: bit, hexadecimal and quoted string values were
 printed as other strings

Hexadecimal strings were printed with decimal escape sequences, bit strings as
empty strings, quotation marks and backslashes were taken for C++ syntax, and
default values lost their quotes. All are printed as octets with a length.
---
 src/compiler/ValueAsString.cpp | 92 +++++++++++++++++++++++++++-------
 src/compiler/asn_compiler.yacc |  6 +--
 2 files changed, 78 insertions(+), 20 deletions(-)

diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 334c914..0a6c3ec 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -2,27 +2,76 @@
 
 #include <iostream>
 
-std::string cpp_value(const HexStringValue& hex)
+// C++ representation of octets, of which any can be zero
+static std::string cpp_value(const std::string& octets)
 {
-    std::string res = "\"";
-    size_t      i   = 0;
+    static const char digits[] = "01234567";
 
-    if (hex.value.length() % 2 == 1)
+    std::string res = "absl::string_view(\"";
+    for (const char octet : octets)
     {
-        const std::string& byte = std::string(hex.value.begin(), hex.value.begin() + 1);
-        res += "\\";
-        res += std::to_string(std::stoi(byte, nullptr, 16));
-        i++;
+        const unsigned char c = static_cast<unsigned char>(octet);
+        if (c < ' ' || c > '~' || c == '"' || c == '\\' || c == '?')
+        {
+            res += '\\';
+            res += digits[c / 64];
+            res += digits[c / 8 % 8];
+            res += digits[c % 8];
+        }
+        else
+        {
+            res += octet;
+        }
     }
+    return res + "\", " + std::to_string(octets.length()) + ")";
+}
 
-    for (; i < hex.value.length(); i += 2)
+// Octets made from digits of the given number of bits, the last one is padded with zero bits
+static std::string octets_from_digits(const std::string& value, int digit_bits)
+{
+    std::string octets;
+    int         bits  = 0;
+    int         octet = 0;
+    for (const char c : value)
     {
-        const std::string& byte = std::string(hex.value.begin() + i, hex.value.begin() + i + 2);
-        res += "\\";
-        res += std::to_string(std::stoi(byte, nullptr, 16));
+        const int digit = (c >= 'a') ? c - 'a' + 10 : (c >= 'A') ? c - 'A' + 10 : c - '0';
+        octet           = octet * (1 << digit_bits) + digit;
+        bits += digit_bits;
+        if (bits == 8)
+        {
+            octets += static_cast<char>(octet);
+            bits  = 0;
+            octet = 0;
+        }
+    }
+    if (bits > 0)
+    {
+        octets += static_cast<char>(octet * (1 << (8 - bits)));
     }
+    return octets;
+}
 
-    return res + "\"";
+static std::string octets(const BitStringValue& bits) { return octets_from_digits(bits.value, 1); }
+static std::string octets(const HexStringValue& hex) { return octets_from_digits(hex.value, 4); }
+static std::string octets(const CharStringValue& chars)
+{
+    // Enclosed in quotation marks, those which are part of the string are written twice
+    std::string text;
+    for (size_t i = 1; i + 1 < chars.value.length(); i++)
+    {
+        text += chars.value[i];
+        if (chars.value[i] == '"')
+        {
+            i++;
+        }
+    }
+    return text;
+}
+
+// Contents of a bit string start with the number of bits which are not used
+static std::string bit_string_contents(const std::string& octets, size_t num_bits)
+{
+    return std::string(1, static_cast<char>(octets.length() * 8 - num_bits)) + octets;
 }
 
 std::string value_as_string(const NamedType& value_type, const Value& value)
@@ -66,8 +115,12 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
         if (absl::holds_alternative<BitStringValue>(value.value_selection))
         {
             const BitStringValue& bstring = absl::get<BitStringValue>(value.value_selection);
-            (void)bstring; // TODO: convert bstring to cstring
-            result += "\"\"";
+            result += cpp_value(bit_string_contents(octets(bstring), bstring.value.length()));
+        }
+        else if (absl::holds_alternative<HexStringValue>(value.value_selection))
+        {
+            const HexStringValue& hstring = absl::get<HexStringValue>(value.value_selection);
+            result += cpp_value(bit_string_contents(octets(hstring), hstring.value.length() * 4));
         }
         else
         {
@@ -94,12 +147,17 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     else if (absl::holds_alternative<HexStringValue>(value.value_selection))
     {
         const HexStringValue& hstring = absl::get<HexStringValue>(value.value_selection);
-        result += "absl::string_view(" + cpp_value(hstring) + ")";
+        result += cpp_value(octets(hstring));
+    }
+    else if (absl::holds_alternative<BitStringValue>(value.value_selection))
+    {
+        const BitStringValue& bstring = absl::get<BitStringValue>(value.value_selection);
+        result += cpp_value(octets(bstring));
     }
     else if (absl::holds_alternative<CharStringValue>(value.value_selection))
     {
         const CharStringValue& cstring = absl::get<CharStringValue>(value.value_selection);
-        result += "absl::string_view(" + cstring.value + ")";
+        result += cpp_value(octets(cstring));
     }
     else if (absl::holds_alternative<int64_t>(value.value_selection))
     {
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 0e3b2b6..6cd8e13 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1617,11 +1617,11 @@ SingleValue:
 |   TimeValue
     { $$.value_selection = $1; }
 |   bstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = BitStringValue{$1}; }
 |   hstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = HexStringValue{$1}; }
 |   cstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = CharStringValue{$1}; }
 |   GENERIC_IDENTIFIER_UPPERCASE
     { $$.value_selection = $1; }
 |   DefinedValue
-- 
2.43.0


From 655a329e633aa186189c334061682081b30741a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 36/53] fix: references to object identifier and bit string
 values were lost

---
 src/compiler/ValueAsString.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 0a6c3ec..4e68d9d 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -79,7 +79,12 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     assert(!is_defined(value_type.type)); // value_type should be concrete
 
     std::string result;
-    if (is_oid(value_type.type))
+    if (absl::holds_alternative<DefinedValue>(value.value_selection) && !is_enumerated(value_type.type))
+    {
+        const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
+        result += defined.reference;
+    }
+    else if (is_oid(value_type.type))
     {
         result += "ObjectIdentifier<>{";
         try
@@ -164,11 +169,6 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
         const int64_t integer = absl::get<int64_t>(value.value_selection);
         result += std::to_string(integer);
     }
-    else if (absl::holds_alternative<DefinedValue>(value.value_selection))
-    {
-        const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
-        result += defined.reference;
-    }
     else if (absl::holds_alternative<BooleanValue>(value.value_selection))
     {
         const BooleanValue& boolean = absl::get<BooleanValue>(value.value_selection);
-- 
2.43.0


From f0875062091605cd5fa8bf0c48a48d3049388095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 37/53] fix: well known names in object identifier values were
 printed as zero

---
 src/compiler/ValueAsString.cpp | 40 +++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 4e68d9d..7b5247b 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -74,6 +74,37 @@ static std::string bit_string_contents(const std::string& octets, size_t num_bit
     return std::string(1, static_cast<char>(octets.length() * 8 - num_bits)) + octets;
 }
 
+// Arcs which are identified by their name only
+static absl::optional<int64_t> object_id_component_value(const ObjectIdComponents& object_id, size_t i)
+{
+    static const std::vector<std::pair<std::string, int64_t>> roots = {
+        {"itu_t", 0}, {"ccitt", 0}, {"iso", 1}, {"joint_iso_itu_t", 2}, {"joint_iso_ccitt", 2}};
+    static const std::vector<std::pair<std::string, int64_t>> itu_t = {
+        {"recommendation", 0}, {"question", 1}, {"administration", 2},
+        {"network_operator", 3}, {"identified_organization", 4}};
+    static const std::vector<std::pair<std::string, int64_t>> iso = {
+        {"standard", 0}, {"registration_authority", 1}, {"member_body", 2}, {"identified_organization", 3}};
+
+    if (object_id.components[i].value)
+    {
+        return object_id.components[i].value;
+    }
+    if (i > 1)
+    {
+        return absl::nullopt;
+    }
+
+    const absl::optional<int64_t> root = (i == 1) ? object_id_component_value(object_id, 0) : absl::nullopt;
+    for (const auto& arc : (i == 0) ? roots : (root && *root == 0) ? itu_t : iso)
+    {
+        if (arc.first == object_id.components[i].name && (i == 0 || (root && *root < 2)))
+        {
+            return arc.second;
+        }
+    }
+    return absl::nullopt;
+}
+
 std::string value_as_string(const NamedType& value_type, const Value& value)
 {
     assert(!is_defined(value_type.type)); // value_type should be concrete
@@ -93,14 +124,7 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
 
             for (size_t i = 0; i < object_id.components.size(); i++)
             {
-                if (object_id.components[i].value)
-                {
-                    result += std::to_string(*object_id.components[i].value);
-                }
-                else
-                {
-                    result += std::to_string(0);
-                }
+                result += std::to_string(object_id_component_value(object_id, i).value_or(0));
 
                 if (i < object_id.components.size() - 1)
                 {
-- 
2.43.0


From 17a32bec8cf429e9371e07a91111318aefa447b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 38/53] fix: real values were rounded to six decimal places

---
 src/compiler/ValueAsString.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 7b5247b..7e9bc9a 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -1,5 +1,6 @@
 #include "fast_ber/compiler/ValueAsString.hpp"
 
+#include <cstdio>
 #include <iostream>
 
 // C++ representation of octets, of which any can be zero
@@ -201,7 +202,9 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     else if (absl::holds_alternative<double>(value.value_selection))
     {
         const double& real = absl::get<double>(value.value_selection);
-        result += std::to_string(real);
+        char          digits[64];
+        std::snprintf(digits, sizeof(digits), "%.17g", real); // enough to tell all values apart
+        result += digits;
     }
     else
     {
-- 
2.43.0


From 4365a3bf8e145971649b33c1c4496dcf9a8aa46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 39/53] fix: boolean value assignments were rejected

---
 src/compiler/asn_compiler.yacc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 6cd8e13..ba35095 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1036,7 +1036,7 @@ NamedType:
 
 ValueWithoutTypeIdentifier:
     BooleanValue
-    { std::cerr << std::string("Warning: Unhandled field: BooleanValue\n"); }
+    { $$.value_selection = $1; }
 |   IRIValue
     { std::cerr << std::string("Warning: Unhandled field: IRIValue\n"); }
 |   ASN_NULL
-- 
2.43.0


From b983098b528594210aebd306b2988978f80bd48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 40/53] fix: values of tagged types were not recognised by the
 type behind the tags

---
 src/compiler/TypeAsString.cpp                          |  2 +-
 .../include/fast_ber/compiler/TypeAsString.hpp         |  2 ++
 src/compiler_main/CompilerMain.cpp                     | 10 ++++------
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 2d26988..99e510e 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -19,7 +19,7 @@ std::string identifier_template_params(const Type&, const Module&, const Asn1Tre
 }
 
 // Concrete type of a component, with the qualified name of the type if it is a reference
-static NamedType resolve_named_type(const NamedType& component, const Module& module, const Asn1Tree& tree)
+NamedType resolve_named_type(const NamedType& component, const Module& module, const Asn1Tree& tree)
 {
     if (is_defined(component.type))
     {
diff --git a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
index 62fdec1..c20b6b6 100644
--- a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
@@ -115,6 +115,8 @@ inline std::string type_name(const DefinedType&) { return "DefinedType"; }
 inline std::string type_name(const BuiltinType& t) { return absl::visit(TypeNameHelper{}, (t)); }
 inline std::string type_name(const Type& t) { return absl::visit(TypeNameHelper{}, (t)); }
 
+NamedType resolve_named_type(const NamedType& component, const Module& module, const Asn1Tree& tree);
+
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
                                  const Asn1Tree& tree, const std::string& identifier_override = {},
                                  bool introduce_type = true);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 3728a0f..18a99f2 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -43,18 +43,16 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
             log_debug(tree, "Creating value assignment: " + module.module_reference + "." + assignment.name);
 
             const ValueAssignment& value_assign = absl::get<ValueAssignment>(assignment.specific);
-            const Type&            assigned_to_type =
-                (is_defined(value_assign.type))
-                               ? type(resolve(tree, module.module_reference, absl::get<DefinedType>(value_assign.type)))
-                               : value_assign.type;
+            const NamedType        assigned_to_type =
+                resolve_named_type(NamedType{assignment.name, value_assign.type}, module, tree);
 
             std::string constness =
-                is_oid(assigned_to_type) ? std::string("static const ") : std::string("static constexpr ");
+                is_oid(assigned_to_type.type) ? std::string("static const ") : std::string("static constexpr ");
 
             std::string result =
                 constness + value_type(value_assign.type, module, tree) + " " + assignment.name + " = ";
 
-            result += value_as_string(NamedType{assignment.name, assigned_to_type}, value_assign.value) + ";\n";
+            result += value_as_string(assigned_to_type, value_assign.value) + ";\n";
             return result;
         }
         else if (absl::holds_alternative<TypeAssignment>(assignment.specific))
-- 
2.43.0


From 0da97020f9e8d3ee4058e4050a8dc16f2d71e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 41/53] fix: the checked-in parser lacked the repair of boolean
 and string values

---
 src/compiler/autogen_copy/asn_compiler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 979c4db..1f7628a 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -9366,7 +9366,7 @@ namespace yy {
     break;
 
   case 249: // ValueWithoutTypeIdentifier: BooleanValue
-    { std::cerr << std::string("Warning: Unhandled field: BooleanValue\n"); }
+    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < BooleanValue > (); }
     break;
 
   case 250: // ValueWithoutTypeIdentifier: IRIValue
@@ -9894,15 +9894,15 @@ namespace yy {
     break;
 
   case 452: // SingleValue: bstring
-    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
   case 453: // SingleValue: hstring
-    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
   case 454: // SingleValue: cstring
-    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
   case 455: // SingleValue: GENERIC_IDENTIFIER_UPPERCASE
-- 
2.43.0


From df572f121a0a727262b52fd8bdc8759d8f8c1990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 42/53] fix: enumeration items without a number did not get the
 one X.680 prescribes

C++ numbers an enumerator after the one in front of it, whether or not another
item has that number.
---
 src/compiler/CompilerTypes.cpp                | 54 +++++++++++++++++++
 src/compiler/asn_compiler.yacc                |  9 ++--
 .../fast_ber/compiler/CompilerTypes.hpp       |  4 ++
 3 files changed, 64 insertions(+), 3 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 73c360d..47b21ca 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -1,5 +1,7 @@
 #include "fast_ber/compiler/CompilerTypes.hpp"
 
+#include <limits>
+
 SequenceOfType::SequenceOfType(bool a, std::unique_ptr<NamedType>&& b, std::unique_ptr<Type>&& c, StorageMode s)
     : has_name(a), named_type(std::move(b)), type(std::move(c)), storage(s)
 {
@@ -168,6 +170,58 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "encode",
     "encoded_length"};
 
+static bool is_numbered(std::vector<EnumerationValue>::const_iterator first,
+                        std::vector<EnumerationValue>::const_iterator last, int64_t number)
+{
+    return std::any_of(first, last,
+                       [number](const EnumerationValue& item) { return item.value && *item.value == number; });
+}
+
+void number_enumeration(std::vector<EnumerationValue>& items, std::size_t num_root_items)
+{
+    const auto root_end = items.begin() + static_cast<std::ptrdiff_t>(num_root_items);
+
+    // Root items get the numbers from zero which are not given to any other root item
+    int64_t next = 0;
+    for (auto item = items.begin(); item != root_end; ++item)
+    {
+        if (!item->value)
+        {
+            while (is_numbered(items.begin(), root_end, next))
+            {
+                next++;
+            }
+            item->value = next;
+        }
+    }
+
+    // Numbers of additional items are in ascending order
+    next = 0;
+    for (auto item = root_end; item != items.end(); ++item)
+    {
+        if (!item->value)
+        {
+            while (is_numbered(items.begin(), root_end, next))
+            {
+                next++;
+            }
+            item->value = next;
+        }
+        if (*item->value >= next && *item->value < std::numeric_limits<int64_t>::max())
+        {
+            next = *item->value + 1;
+        }
+    }
+
+    for (auto item = items.begin(); item != items.end(); ++item)
+    {
+        if (is_numbered(items.begin(), item, *item->value))
+        {
+            throw std::runtime_error("Enumeration has more than one item with number " + std::to_string(*item->value));
+        }
+    }
+}
+
 // Switch asn '-' for C++ '_'
 // Rename any names which are reserved in C++
 std::string santize_name(const std::string& name)
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index ba35095..36b9a21 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1152,14 +1152,17 @@ EnumeratedType:
 Enumerations:
     Enumeration
     { $$ = $1;
-      $$.accept_anything = false; }
+      $$.accept_anything = false;
+      number_enumeration($$.enum_values, $1.enum_values.size()); }
 |   Enumeration "," ELIPSIS ExceptionSpec
     { $$ = $1;
-      $$.accept_anything = true; }
+      $$.accept_anything = true;
+      number_enumeration($$.enum_values, $1.enum_values.size()); }
 |   Enumeration "," ELIPSIS ExceptionSpec "," Enumeration
     { $$ = $1;
       $$.accept_anything = true;
-      $$.enum_values.insert($$.enum_values.end(), $6.enum_values.begin(), $6.enum_values.end()); }
+      $$.enum_values.insert($$.enum_values.end(), $6.enum_values.begin(), $6.enum_values.end());
+      number_enumeration($$.enum_values, $1.enum_values.size()); }
 |   ELIPSIS ExceptionSpec
 
 Enumeration:
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 0deba40..534d7c7 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -727,6 +727,10 @@ struct ObjectIdComponents
     std::vector<ObjectIdComponentValue> components;
 };
 
+// Give a number to each item of an enumeration which has none
+// The first num_root_items are those in front of the extension marker
+void number_enumeration(std::vector<EnumerationValue>& items, std::size_t num_root_items);
+
 // Switch asn '-' for C++ '_'
 // Rename any names which are reserved in C++
 std::string santize_name(const std::string& name);
-- 
2.43.0


From d545df21aa9c71e8323d686cfae6aebf4236b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 43/53] fix: named numbers were rejected as values of their
 INTEGER type

---
 src/compiler/CompilerTypes.cpp                  | 17 +++++++++++++++++
 src/compiler/Dependencies.cpp                   | 13 +++++++++----
 src/compiler/ValueAsString.cpp                  |  5 +++--
 .../include/fast_ber/compiler/CompilerTypes.hpp |  1 +
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 47b21ca..07c5647 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -328,6 +328,23 @@ bool is_enumerated(const Type& type)
            absl::holds_alternative<EnumeratedType>(absl::get<BuiltinType>(type));
 }
 
+// Number which has been given a name within an integer type
+absl::optional<int64_t> named_number(const Type& type, const std::string& name)
+{
+    if (absl::holds_alternative<BuiltinType>(type) &&
+        absl::holds_alternative<IntegerType>(absl::get<BuiltinType>(type)))
+    {
+        for (const NamedNumber& named : absl::get<IntegerType>(absl::get<BuiltinType>(type)).named_numbers)
+        {
+            if (named.name == name)
+            {
+                return named.number;
+            }
+        }
+    }
+    return absl::nullopt;
+}
+
 bool is_choice(const Type& type)
 {
     return absl::holds_alternative<BuiltinType>(type) &&
diff --git a/src/compiler/Dependencies.cpp b/src/compiler/Dependencies.cpp
index 99f692f..30fb40d 100644
--- a/src/compiler/Dependencies.cpp
+++ b/src/compiler/Dependencies.cpp
@@ -101,8 +101,9 @@ static DependsOnHelper  depends_on_helper;
 std::vector<Dependency> depends_on(const BuiltinType& type) { return absl::visit(depends_on_helper, type); }
 std::vector<Dependency> depends_on(const Type& type) { return absl::visit(depends_on_helper, type); }
 
-// Values of an enumeration are named within its type, all other named values are assignments
-static bool is_enumerated_reference(const Type& original_type, const Module& module, const Asn1Tree& tree)
+// Values of an enumeration and named numbers are named within their type, all other named values are assignments
+static bool is_named_in_type(const Type& original_type, const std::string& reference, const Module& module,
+                             const Asn1Tree& tree)
 {
     Type          type        = original_type;
     const Module* type_module = &module;
@@ -115,7 +116,7 @@ static bool is_enumerated_reference(const Type& original_type, const Module& mod
         }
         if (!is_defined(type))
         {
-            return is_enumerated(type);
+            return is_enumerated(type) || named_number(type, reference);
         }
         const DefinedType defined = absl::get<DefinedType>(type);
         if (defined.module_reference && *defined.module_reference != type_module->module_reference)
@@ -139,11 +140,15 @@ static bool is_enumerated_reference(const Type& original_type, const Module& mod
 static void add_value_dependency(const Type& type, const Value& value, const Module& module, const Asn1Tree& tree,
                                  std::vector<Dependency>& depends)
 {
-    if (!absl::holds_alternative<DefinedValue>(value.value_selection) || is_enumerated_reference(type, module, tree))
+    if (!absl::holds_alternative<DefinedValue>(value.value_selection))
     {
         return;
     }
     const std::string& reference = absl::get<DefinedValue>(value.value_selection).reference;
+    if (is_named_in_type(type, reference, module, tree))
+    {
+        return;
+    }
     for (const Import& import : module.imports)
     {
         const auto& values = import.imported_values;
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 7e9bc9a..65f15ca 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -113,8 +113,9 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     std::string result;
     if (absl::holds_alternative<DefinedValue>(value.value_selection) && !is_enumerated(value_type.type))
     {
-        const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
-        result += defined.reference;
+        const DefinedValue&           defined = absl::get<DefinedValue>(value.value_selection);
+        const absl::optional<int64_t> number  = named_number(value_type.type, defined.reference);
+        result += number ? std::to_string(*number) : defined.reference;
     }
     else if (is_oid(value_type.type))
     {
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 534d7c7..9313d7f 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -743,6 +743,7 @@ bool is_sequence(const Type& type);
 bool is_set_of(const Type& type);
 bool is_sequence_of(const Type& type);
 bool is_enumerated(const Type& type);
+absl::optional<int64_t> named_number(const Type& type, const std::string& name);
 bool is_choice(const Type& type);
 bool is_prefixed(const Type& type);
 bool is_integer(const Type& type);
-- 
2.43.0


From 3fe31c97d3d60fe26e6045fb1920a203f50d77e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 44/53] fix: imported string values could not be used in
 constants

---
 src/compiler_main/CompilerMain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 18a99f2..67a7c74 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -89,7 +89,7 @@ std::string create_imports(const Asn1Tree& tree, const Module& module)
             log_debug(tree, "Value import " + module.module_reference + "." + import_name + " <- " +
                                 import.module_reference + "." + import_name);
 
-            output += "static const auto " + import_name + " = " + import.module_reference + "::" + import_name + ";\n";
+            output += "static constexpr const auto& " + import_name + " = " + import.module_reference + "::" + import_name + ";\n";
         }
         if (import.imported_values.size() > 0)
         {
-- 
2.43.0


From e9624936e26beb304412ea708e28490e90c6392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:54 +0000
Subject: [PATCH 45/53] fix: the checked-in parser lacked the numbering of
 enumeration items

---
 src/compiler/autogen_copy/asn_compiler.hpp | 583 +++++++++++----------
 1 file changed, 293 insertions(+), 290 deletions(-)

diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 1f7628a..639edb8 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -9507,18 +9507,21 @@ namespace yy {
 
   case 296: // Enumerations: Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[0].value.as < EnumeratedType > ();
-      yylhs.value.as < EnumeratedType > ().accept_anything = false; }
+      yylhs.value.as < EnumeratedType > ().accept_anything = false;
+      number_enumeration(yylhs.value.as < EnumeratedType > ().enum_values, yystack_[0].value.as < EnumeratedType > ().enum_values.size()); }
     break;
 
   case 297: // Enumerations: Enumeration "," "..." ExceptionSpec
     { yylhs.value.as < EnumeratedType > () = yystack_[3].value.as < EnumeratedType > ();
-      yylhs.value.as < EnumeratedType > ().accept_anything = true; }
+      yylhs.value.as < EnumeratedType > ().accept_anything = true;
+      number_enumeration(yylhs.value.as < EnumeratedType > ().enum_values, yystack_[3].value.as < EnumeratedType > ().enum_values.size()); }
     break;
 
   case 298: // Enumerations: Enumeration "," "..." ExceptionSpec "," Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[5].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true;
-      yylhs.value.as < EnumeratedType > ().enum_values.insert(yylhs.value.as < EnumeratedType > ().enum_values.end(), yystack_[0].value.as < EnumeratedType > ().enum_values.begin(), yystack_[0].value.as < EnumeratedType > ().enum_values.end()); }
+      yylhs.value.as < EnumeratedType > ().enum_values.insert(yylhs.value.as < EnumeratedType > ().enum_values.end(), yystack_[0].value.as < EnumeratedType > ().enum_values.begin(), yystack_[0].value.as < EnumeratedType > ().enum_values.end());
+      number_enumeration(yylhs.value.as < EnumeratedType > ().enum_values, yystack_[5].value.as < EnumeratedType > ().enum_values.size()); }
     break;
 
   case 300: // Enumeration: EnumerationItem
@@ -11923,35 +11926,35 @@ namespace yy {
     1059,  1061,  1063,  1065,  1069,  1070,  1071,  1072,  1073,  1075,
     1077,  1079,  1081,  1083,  1088,  1090,  1092,  1095,  1096,  1099,
     1100,  1103,  1106,  1108,  1116,  1119,  1121,  1125,  1127,  1131,
-    1133,  1137,  1139,  1143,  1145,  1149,  1153,  1156,  1159,  1163,
-    1166,  1168,  1172,  1174,  1182,  1185,  1187,  1191,  1192,  1195,
-    1196,  1210,  1213,  1216,  1218,  1222,  1224,  1227,  1231,  1235,
-    1240,  1243,  1246,  1249,  1254,  1256,  1260,  1263,  1266,  1269,
-    1271,  1273,  1275,  1287,  1289,  1293,  1295,  1299,  1301,  1305,
-    1309,  1313,  1315,  1317,  1321,  1323,  1330,  1333,  1337,  1339,
-    1341,  1345,  1349,  1350,  1353,  1355,  1358,  1360,  1362,  1364,
-    1374,  1377,  1379,  1383,  1385,  1389,  1391,  1393,  1397,  1401,
-    1403,  1406,  1410,  1422,  1425,  1431,  1434,  1435,  1438,  1439,
-    1442,  1448,  1455,  1461,  1464,  1467,  1470,  1473,  1476,  1479,
-    1481,  1485,  1487,  1489,  1491,  1493,  1495,  1497,  1499,  1501,
-    1503,  1505,  1507,  1509,  1513,  1517,  1519,  1523,  1525,  1527,
-    1529,  1531,  1533,  1535,  1537,  1541,  1545,  1546,  1549,  1552,
-    1553,  1554,  1557,  1558,  1561,  1562,  1565,  1568,  1569,  1572,
-    1575,  1576,  1579,  1582,  1585,  1586,  1589,  1590,  1593,  1595,
-    1598,  1599,  1600,  1601,  1602,  1603,  1604,  1605,  1606,  1612,
-    1615,  1617,  1619,  1621,  1623,  1625,  1627,  1629,  1631,  1635,
-    1638,  1641,  1644,  1645,  1648,  1649,  1652,  1653,  1656,  1657,
-    1660,  1663,  1666,  1669,  1670,  1673,  1675,  1676,  1677,  1678,
-    1681,  1682,  1685,  1688,  1691,  1692,  1695,  1696,  1697,  1698,
-    1701,  1704,  1707,  1708,  1711,  1712,  1713,  1716,  1720,  1724,
-    1728,  1732,  1736,  1737,  1738,  1739,  1740,  1741,  1742,  1743,
-    1744,  1745,  1746,  1747,  1748,  1749,  1750,  1751,  1752,  1753,
-    1754,  1755,  1756,  1757,  1758,  1759,  1760,  1761,  1762,  1763,
-    1764,  1765,  1766,  1767,  1768,  1769,  1770,  1771,  1772,  1773,
-    1774,  1775,  1776,  1777,  1778,  1779,  1780,  1781,  1782,  1783,
-    1784,  1785,  1786,  1787,  1788,  1789,  1790,  1791,  1792,  1793,
-    1794,  1795,  1796,  1797,  1798,  1799,  1800,  1801,  1802,  1803,
-    1804,  1805,  1806,  1807,  1808,  1809,  1810,  1811,  1812
+    1133,  1137,  1139,  1143,  1145,  1149,  1153,  1157,  1161,  1166,
+    1169,  1171,  1175,  1177,  1185,  1188,  1190,  1194,  1195,  1198,
+    1199,  1213,  1216,  1219,  1221,  1225,  1227,  1230,  1234,  1238,
+    1243,  1246,  1249,  1252,  1257,  1259,  1263,  1266,  1269,  1272,
+    1274,  1276,  1278,  1290,  1292,  1296,  1298,  1302,  1304,  1308,
+    1312,  1316,  1318,  1320,  1324,  1326,  1333,  1336,  1340,  1342,
+    1344,  1348,  1352,  1353,  1356,  1358,  1361,  1363,  1365,  1367,
+    1377,  1380,  1382,  1386,  1388,  1392,  1394,  1396,  1400,  1404,
+    1406,  1409,  1413,  1425,  1428,  1434,  1437,  1438,  1441,  1442,
+    1445,  1451,  1458,  1464,  1467,  1470,  1473,  1476,  1479,  1482,
+    1484,  1488,  1490,  1492,  1494,  1496,  1498,  1500,  1502,  1504,
+    1506,  1508,  1510,  1512,  1516,  1520,  1522,  1526,  1528,  1530,
+    1532,  1534,  1536,  1538,  1540,  1544,  1548,  1549,  1552,  1555,
+    1556,  1557,  1560,  1561,  1564,  1565,  1568,  1571,  1572,  1575,
+    1578,  1579,  1582,  1585,  1588,  1589,  1592,  1593,  1596,  1598,
+    1601,  1602,  1603,  1604,  1605,  1606,  1607,  1608,  1609,  1615,
+    1618,  1620,  1622,  1624,  1626,  1628,  1630,  1632,  1634,  1638,
+    1641,  1644,  1647,  1648,  1651,  1652,  1655,  1656,  1659,  1660,
+    1663,  1666,  1669,  1672,  1673,  1676,  1678,  1679,  1680,  1681,
+    1684,  1685,  1688,  1691,  1694,  1695,  1698,  1699,  1700,  1701,
+    1704,  1707,  1710,  1711,  1714,  1715,  1716,  1719,  1723,  1727,
+    1731,  1735,  1739,  1740,  1741,  1742,  1743,  1744,  1745,  1746,
+    1747,  1748,  1749,  1750,  1751,  1752,  1753,  1754,  1755,  1756,
+    1757,  1758,  1759,  1760,  1761,  1762,  1763,  1764,  1765,  1766,
+    1767,  1768,  1769,  1770,  1771,  1772,  1773,  1774,  1775,  1776,
+    1777,  1778,  1779,  1780,  1781,  1782,  1783,  1784,  1785,  1786,
+    1787,  1788,  1789,  1790,  1791,  1792,  1793,  1794,  1795,  1796,
+    1797,  1798,  1799,  1800,  1801,  1802,  1803,  1804,  1805,  1806,
+    1807,  1808,  1809,  1810,  1811,  1812,  1813,  1814,  1815
   };
 
   void
@@ -11999,7 +12002,7 @@ namespace yy {
         context_.location.step();
         // Lexer
 
-#line 12003 "asn_compiler.hpp"
+#line 12006 "asn_compiler.hpp"
 {
 	unsigned char yych;
 	unsigned int yyaccept = 0;
@@ -12099,25 +12102,25 @@ namespace yy {
 	}
 yy1:
 	++context_.cursor;
-#line 1951 "src/compiler/asn_compiler.yacc"
+#line 1954 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
-#line 12105 "asn_compiler.hpp"
+#line 12108 "asn_compiler.hpp"
 yy2:
 	++context_.cursor;
 yy3:
-#line 1977 "src/compiler/asn_compiler.yacc"
+#line 1980 "src/compiler/asn_compiler.yacc"
 	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
-#line 12111 "asn_compiler.hpp"
+#line 12114 "asn_compiler.hpp"
 yy4:
 	++context_.cursor;
-#line 1955 "src/compiler/asn_compiler.yacc"
+#line 1958 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.columns(); continue; }
-#line 12116 "asn_compiler.hpp"
+#line 12119 "asn_compiler.hpp"
 yy5:
 	++context_.cursor;
-#line 1954 "src/compiler/asn_compiler.yacc"
+#line 1957 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.lines();   continue; }
-#line 12121 "asn_compiler.hpp"
+#line 12124 "asn_compiler.hpp"
 yy6:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12126,9 +12129,9 @@ yy6:
 	}
 yy7:
 	++context_.cursor;
-#line 1973 "src/compiler/asn_compiler.yacc"
+#line 1976 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCLAMATION_MARK (context_.location); }
-#line 12132 "asn_compiler.hpp"
+#line 12135 "asn_compiler.hpp"
 yy8:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12222,19 +12225,19 @@ yy10:
 	}
 yy11:
 	++context_.cursor;
-#line 1963 "src/compiler/asn_compiler.yacc"
+#line 1966 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-#line 12228 "asn_compiler.hpp"
+#line 12231 "asn_compiler.hpp"
 yy12:
 	++context_.cursor;
-#line 1964 "src/compiler/asn_compiler.yacc"
+#line 1967 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-#line 12233 "asn_compiler.hpp"
+#line 12236 "asn_compiler.hpp"
 yy13:
 	++context_.cursor;
-#line 1969 "src/compiler/asn_compiler.yacc"
+#line 1972 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-#line 12238 "asn_compiler.hpp"
+#line 12241 "asn_compiler.hpp"
 yy14:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12252,9 +12255,9 @@ yy14:
 		default: goto yy15;
 	}
 yy15:
-#line 1970 "src/compiler/asn_compiler.yacc"
+#line 1973 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
-#line 12258 "asn_compiler.hpp"
+#line 12261 "asn_compiler.hpp"
 yy16:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12262,9 +12265,9 @@ yy16:
 		default: goto yy17;
 	}
 yy17:
-#line 1971 "src/compiler/asn_compiler.yacc"
+#line 1974 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
-#line 12268 "asn_compiler.hpp"
+#line 12271 "asn_compiler.hpp"
 yy18:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12290,9 +12293,9 @@ yy19:
 		default: goto yy20;
 	}
 yy20:
-#line 1937 "src/compiler/asn_compiler.yacc"
+#line 1940 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 12296 "asn_compiler.hpp"
+#line 12299 "asn_compiler.hpp"
 yy21:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12301,24 +12304,24 @@ yy21:
 		default: goto yy22;
 	}
 yy22:
-#line 1967 "src/compiler/asn_compiler.yacc"
+#line 1970 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
-#line 12307 "asn_compiler.hpp"
+#line 12310 "asn_compiler.hpp"
 yy23:
 	++context_.cursor;
-#line 1968 "src/compiler/asn_compiler.yacc"
+#line 1971 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-#line 12312 "asn_compiler.hpp"
+#line 12315 "asn_compiler.hpp"
 yy24:
 	++context_.cursor;
-#line 1974 "src/compiler/asn_compiler.yacc"
+#line 1977 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-#line 12317 "asn_compiler.hpp"
+#line 12320 "asn_compiler.hpp"
 yy25:
 	++context_.cursor;
-#line 1976 "src/compiler/asn_compiler.yacc"
+#line 1979 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-#line 12322 "asn_compiler.hpp"
+#line 12325 "asn_compiler.hpp"
 yy26:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12331,9 +12334,9 @@ yy26:
 		default: goto yy35;
 	}
 yy27:
-#line 1945 "src/compiler/asn_compiler.yacc"
+#line 1948 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12337 "asn_compiler.hpp"
+#line 12340 "asn_compiler.hpp"
 yy28:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12564,19 +12567,19 @@ yy46:
 	}
 yy47:
 	++context_.cursor;
-#line 1965 "src/compiler/asn_compiler.yacc"
+#line 1968 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-#line 12570 "asn_compiler.hpp"
+#line 12573 "asn_compiler.hpp"
 yy48:
 	++context_.cursor;
-#line 1966 "src/compiler/asn_compiler.yacc"
+#line 1969 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-#line 12575 "asn_compiler.hpp"
+#line 12578 "asn_compiler.hpp"
 yy49:
 	++context_.cursor;
-#line 1975 "src/compiler/asn_compiler.yacc"
+#line 1978 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-#line 12580 "asn_compiler.hpp"
+#line 12583 "asn_compiler.hpp"
 yy50:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12648,24 +12651,24 @@ yy50:
 		default: goto yy51;
 	}
 yy51:
-#line 1946 "src/compiler/asn_compiler.yacc"
+#line 1949 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12654 "asn_compiler.hpp"
+#line 12657 "asn_compiler.hpp"
 yy52:
 	++context_.cursor;
-#line 1961 "src/compiler/asn_compiler.yacc"
+#line 1964 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-#line 12659 "asn_compiler.hpp"
+#line 12662 "asn_compiler.hpp"
 yy53:
 	++context_.cursor;
-#line 1972 "src/compiler/asn_compiler.yacc"
+#line 1975 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-#line 12664 "asn_compiler.hpp"
+#line 12667 "asn_compiler.hpp"
 yy54:
 	++context_.cursor;
-#line 1962 "src/compiler/asn_compiler.yacc"
+#line 1965 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-#line 12669 "asn_compiler.hpp"
+#line 12672 "asn_compiler.hpp"
 yy55:
 	yych = *++context_.cursor;
 yy56:
@@ -12786,9 +12789,9 @@ yy58:
 		default: goto yy59;
 	}
 yy59:
-#line 1940 "src/compiler/asn_compiler.yacc"
+#line 1943 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-#line 12792 "asn_compiler.hpp"
+#line 12795 "asn_compiler.hpp"
 yy60:
 	yyaccept = 6;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12860,9 +12863,9 @@ yy60:
 		default: goto yy61;
 	}
 yy61:
-#line 1947 "src/compiler/asn_compiler.yacc"
+#line 1950 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12866 "asn_compiler.hpp"
+#line 12869 "asn_compiler.hpp"
 yy62:
 	yyaccept = 7;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12934,9 +12937,9 @@ yy62:
 		default: goto yy63;
 	}
 yy63:
-#line 1948 "src/compiler/asn_compiler.yacc"
+#line 1951 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12940 "asn_compiler.hpp"
+#line 12943 "asn_compiler.hpp"
 yy64:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13011,9 +13014,9 @@ yy68:
 		default: goto yy68;
 	}
 yy69:
-#line 1931 "src/compiler/asn_compiler.yacc"
+#line 1934 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); continue; }
-#line 13017 "asn_compiler.hpp"
+#line 13020 "asn_compiler.hpp"
 yy70:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13030,9 +13033,9 @@ yy70:
 		default: goto yy71;
 	}
 yy71:
-#line 1938 "src/compiler/asn_compiler.yacc"
+#line 1941 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 13036 "asn_compiler.hpp"
+#line 13039 "asn_compiler.hpp"
 yy72:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13040,9 +13043,9 @@ yy72:
 		default: goto yy73;
 	}
 yy73:
-#line 1960 "src/compiler/asn_compiler.yacc"
+#line 1963 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-#line 13046 "asn_compiler.hpp"
+#line 13049 "asn_compiler.hpp"
 yy74:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13273,9 +13276,9 @@ yy87:
 		default: goto yy88;
 	}
 yy88:
-#line 1844 "src/compiler/asn_compiler.yacc"
+#line 1847 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-#line 13279 "asn_compiler.hpp"
+#line 13282 "asn_compiler.hpp"
 yy89:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -13530,9 +13533,9 @@ yy114:
 		default: goto yy115;
 	}
 yy115:
-#line 1892 "src/compiler/asn_compiler.yacc"
+#line 1895 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-#line 13536 "asn_compiler.hpp"
+#line 13539 "asn_compiler.hpp"
 yy116:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -13912,14 +13915,14 @@ yy142:
 	}
 yy143:
 	++context_.cursor;
-#line 1942 "src/compiler/asn_compiler.yacc"
+#line 1945 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13918 "asn_compiler.hpp"
+#line 13921 "asn_compiler.hpp"
 yy144:
 	++context_.cursor;
-#line 1944 "src/compiler/asn_compiler.yacc"
+#line 1947 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13923 "asn_compiler.hpp"
+#line 13926 "asn_compiler.hpp"
 yy145:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13937,9 +13940,9 @@ yy146:
 	}
 yy147:
 	++context_.cursor;
-#line 1959 "src/compiler/asn_compiler.yacc"
+#line 1962 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-#line 13943 "asn_compiler.hpp"
+#line 13946 "asn_compiler.hpp"
 yy148:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13964,14 +13967,14 @@ yy149:
 		default: goto yy150;
 	}
 yy150:
-#line 1936 "src/compiler/asn_compiler.yacc"
+#line 1939 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-#line 13970 "asn_compiler.hpp"
+#line 13973 "asn_compiler.hpp"
 yy151:
 	++context_.cursor;
-#line 1958 "src/compiler/asn_compiler.yacc"
+#line 1961 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-#line 13975 "asn_compiler.hpp"
+#line 13978 "asn_compiler.hpp"
 yy152:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14051,9 +14054,9 @@ yy153:
 		default: goto yy154;
 	}
 yy154:
-#line 1836 "src/compiler/asn_compiler.yacc"
+#line 1839 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-#line 14057 "asn_compiler.hpp"
+#line 14060 "asn_compiler.hpp"
 yy155:
 	yyaccept = 11;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14125,9 +14128,9 @@ yy155:
 		default: goto yy156;
 	}
 yy156:
-#line 1837 "src/compiler/asn_compiler.yacc"
+#line 1840 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-#line 14131 "asn_compiler.hpp"
+#line 14134 "asn_compiler.hpp"
 yy157:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14220,9 +14223,9 @@ yy160:
 		default: goto yy161;
 	}
 yy161:
-#line 1841 "src/compiler/asn_compiler.yacc"
+#line 1844 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-#line 14226 "asn_compiler.hpp"
+#line 14229 "asn_compiler.hpp"
 yy162:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14380,9 +14383,9 @@ yy174:
 		default: goto yy175;
 	}
 yy175:
-#line 1860 "src/compiler/asn_compiler.yacc"
+#line 1863 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-#line 14386 "asn_compiler.hpp"
+#line 14389 "asn_compiler.hpp"
 yy176:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14561,9 +14564,9 @@ yy191:
 		default: goto yy192;
 	}
 yy192:
-#line 1883 "src/compiler/asn_compiler.yacc"
+#line 1886 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-#line 14567 "asn_compiler.hpp"
+#line 14570 "asn_compiler.hpp"
 yy193:
 	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14635,9 +14638,9 @@ yy193:
 		default: goto yy194;
 	}
 yy194:
-#line 1884 "src/compiler/asn_compiler.yacc"
+#line 1887 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-#line 14641 "asn_compiler.hpp"
+#line 14644 "asn_compiler.hpp"
 yy195:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14772,9 +14775,9 @@ yy204:
 		default: goto yy205;
 	}
 yy205:
-#line 1896 "src/compiler/asn_compiler.yacc"
+#line 1899 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-#line 14778 "asn_compiler.hpp"
+#line 14781 "asn_compiler.hpp"
 yy206:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14895,9 +14898,9 @@ yy213:
 		default: goto yy214;
 	}
 yy214:
-#line 1905 "src/compiler/asn_compiler.yacc"
+#line 1908 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-#line 14901 "asn_compiler.hpp"
+#line 14904 "asn_compiler.hpp"
 yy215:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15014,14 +15017,14 @@ yy230:
 	}
 yy231:
 	++context_.cursor;
-#line 1929 "src/compiler/asn_compiler.yacc"
+#line 1932 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); continue; }
-#line 15020 "asn_compiler.hpp"
+#line 15023 "asn_compiler.hpp"
 yy232:
 	++context_.cursor;
-#line 1933 "src/compiler/asn_compiler.yacc"
+#line 1936 "src/compiler/asn_compiler.yacc"
 	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
-#line 15025 "asn_compiler.hpp"
+#line 15028 "asn_compiler.hpp"
 yy233:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15184,9 +15187,9 @@ yy246:
 		default: goto yy247;
 	}
 yy247:
-#line 1852 "src/compiler/asn_compiler.yacc"
+#line 1855 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-#line 15190 "asn_compiler.hpp"
+#line 15193 "asn_compiler.hpp"
 yy248:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15336,9 +15339,9 @@ yy259:
 		default: goto yy260;
 	}
 yy260:
-#line 1868 "src/compiler/asn_compiler.yacc"
+#line 1871 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-#line 15342 "asn_compiler.hpp"
+#line 15345 "asn_compiler.hpp"
 yy261:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15557,9 +15560,9 @@ yy273:
 		default: goto yy274;
 	}
 yy274:
-#line 1887 "src/compiler/asn_compiler.yacc"
+#line 1890 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-#line 15563 "asn_compiler.hpp"
+#line 15566 "asn_compiler.hpp"
 yy275:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15769,9 +15772,9 @@ yy286:
 		default: goto yy287;
 	}
 yy287:
-#line 1901 "src/compiler/asn_compiler.yacc"
+#line 1904 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-#line 15775 "asn_compiler.hpp"
+#line 15778 "asn_compiler.hpp"
 yy288:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15864,9 +15867,9 @@ yy291:
 		default: goto yy292;
 	}
 yy292:
-#line 1907 "src/compiler/asn_compiler.yacc"
+#line 1910 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-#line 15870 "asn_compiler.hpp"
+#line 15873 "asn_compiler.hpp"
 yy293:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15959,9 +15962,9 @@ yy296:
 		default: goto yy297;
 	}
 yy297:
-#line 1911 "src/compiler/asn_compiler.yacc"
+#line 1914 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-#line 15965 "asn_compiler.hpp"
+#line 15968 "asn_compiler.hpp"
 yy298:
 	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16033,9 +16036,9 @@ yy298:
 		default: goto yy299;
 	}
 yy299:
-#line 1913 "src/compiler/asn_compiler.yacc"
+#line 1916 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-#line 16039 "asn_compiler.hpp"
+#line 16042 "asn_compiler.hpp"
 yy300:
 	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16107,9 +16110,9 @@ yy300:
 		default: goto yy301;
 	}
 yy301:
-#line 1915 "src/compiler/asn_compiler.yacc"
+#line 1918 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-#line 16113 "asn_compiler.hpp"
+#line 16116 "asn_compiler.hpp"
 yy302:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16251,9 +16254,9 @@ yy312:
 		default: goto yy313;
 	}
 yy313:
-#line 1925 "src/compiler/asn_compiler.yacc"
+#line 1928 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-#line 16257 "asn_compiler.hpp"
+#line 16260 "asn_compiler.hpp"
 yy314:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16353,9 +16356,9 @@ yy318:
 		default: goto yy319;
 	}
 yy319:
-#line 1840 "src/compiler/asn_compiler.yacc"
+#line 1843 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-#line 16359 "asn_compiler.hpp"
+#line 16362 "asn_compiler.hpp"
 yy320:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16455,9 +16458,9 @@ yy324:
 		default: goto yy325;
 	}
 yy325:
-#line 1847 "src/compiler/asn_compiler.yacc"
+#line 1850 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-#line 16461 "asn_compiler.hpp"
+#line 16464 "asn_compiler.hpp"
 yy326:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16696,9 +16699,9 @@ yy341:
 		default: goto yy342;
 	}
 yy342:
-#line 1867 "src/compiler/asn_compiler.yacc"
+#line 1870 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-#line 16702 "asn_compiler.hpp"
+#line 16705 "asn_compiler.hpp"
 yy343:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16883,9 +16886,9 @@ yy359:
 		default: goto yy360;
 	}
 yy360:
-#line 1891 "src/compiler/asn_compiler.yacc"
+#line 1894 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-#line 16889 "asn_compiler.hpp"
+#line 16892 "asn_compiler.hpp"
 yy361:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17259,9 +17262,9 @@ yy378:
 		default: goto yy379;
 	}
 yy379:
-#line 1917 "src/compiler/asn_compiler.yacc"
+#line 1920 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-#line 17265 "asn_compiler.hpp"
+#line 17268 "asn_compiler.hpp"
 yy380:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17382,9 +17385,9 @@ yy387:
 		default: goto yy388;
 	}
 yy388:
-#line 1834 "src/compiler/asn_compiler.yacc"
+#line 1837 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-#line 17388 "asn_compiler.hpp"
+#line 17391 "asn_compiler.hpp"
 yy389:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17498,9 +17501,9 @@ yy395:
 		default: goto yy396;
 	}
 yy396:
-#line 1846 "src/compiler/asn_compiler.yacc"
+#line 1849 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-#line 17504 "asn_compiler.hpp"
+#line 17507 "asn_compiler.hpp"
 yy397:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17649,9 +17652,9 @@ yy408:
 		default: goto yy409;
 	}
 yy409:
-#line 1862 "src/compiler/asn_compiler.yacc"
+#line 1865 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-#line 17655 "asn_compiler.hpp"
+#line 17658 "asn_compiler.hpp"
 yy410:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17985,9 +17988,9 @@ yy430:
 		default: goto yy431;
 	}
 yy431:
-#line 1889 "src/compiler/asn_compiler.yacc"
+#line 1892 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-#line 17991 "asn_compiler.hpp"
+#line 17994 "asn_compiler.hpp"
 yy432:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18136,9 +18139,9 @@ yy443:
 		default: goto yy444;
 	}
 yy444:
-#line 1908 "src/compiler/asn_compiler.yacc"
+#line 1911 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-#line 18142 "asn_compiler.hpp"
+#line 18145 "asn_compiler.hpp"
 yy445:
 	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18210,9 +18213,9 @@ yy445:
 		default: goto yy446;
 	}
 yy446:
-#line 1909 "src/compiler/asn_compiler.yacc"
+#line 1912 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-#line 18216 "asn_compiler.hpp"
+#line 18219 "asn_compiler.hpp"
 yy447:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18312,9 +18315,9 @@ yy451:
 		default: goto yy452;
 	}
 yy452:
-#line 1918 "src/compiler/asn_compiler.yacc"
+#line 1921 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-#line 18318 "asn_compiler.hpp"
+#line 18321 "asn_compiler.hpp"
 yy453:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18456,9 +18459,9 @@ yy463:
 		default: goto yy464;
 	}
 yy464:
-#line 1843 "src/compiler/asn_compiler.yacc"
+#line 1846 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-#line 18462 "asn_compiler.hpp"
+#line 18465 "asn_compiler.hpp"
 yy465:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18565,9 +18568,9 @@ yy470:
 		default: goto yy471;
 	}
 yy471:
-#line 1854 "src/compiler/asn_compiler.yacc"
+#line 1857 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-#line 18571 "asn_compiler.hpp"
+#line 18574 "asn_compiler.hpp"
 yy472:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18660,9 +18663,9 @@ yy475:
 		default: goto yy476;
 	}
 yy476:
-#line 1858 "src/compiler/asn_compiler.yacc"
+#line 1861 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-#line 18666 "asn_compiler.hpp"
+#line 18669 "asn_compiler.hpp"
 yy477:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18755,9 +18758,9 @@ yy480:
 		default: goto yy481;
 	}
 yy481:
-#line 1864 "src/compiler/asn_compiler.yacc"
+#line 1867 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-#line 18761 "asn_compiler.hpp"
+#line 18764 "asn_compiler.hpp"
 yy482:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18879,9 +18882,9 @@ yy489:
 		default: goto yy490;
 	}
 yy490:
-#line 1875 "src/compiler/asn_compiler.yacc"
+#line 1878 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-#line 18885 "asn_compiler.hpp"
+#line 18888 "asn_compiler.hpp"
 yy491:
 	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18953,9 +18956,9 @@ yy491:
 		default: goto yy492;
 	}
 yy492:
-#line 1876 "src/compiler/asn_compiler.yacc"
+#line 1879 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-#line 18959 "asn_compiler.hpp"
+#line 18962 "asn_compiler.hpp"
 yy493:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19048,9 +19051,9 @@ yy496:
 		default: goto yy497;
 	}
 yy497:
-#line 1880 "src/compiler/asn_compiler.yacc"
+#line 1883 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-#line 19054 "asn_compiler.hpp"
+#line 19057 "asn_compiler.hpp"
 yy498:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19157,9 +19160,9 @@ yy503:
 		default: goto yy504;
 	}
 yy504:
-#line 1893 "src/compiler/asn_compiler.yacc"
+#line 1896 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-#line 19163 "asn_compiler.hpp"
+#line 19166 "asn_compiler.hpp"
 yy505:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19245,9 +19248,9 @@ yy507:
 		default: goto yy508;
 	}
 yy508:
-#line 1895 "src/compiler/asn_compiler.yacc"
+#line 1898 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-#line 19251 "asn_compiler.hpp"
+#line 19254 "asn_compiler.hpp"
 yy509:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19326,9 +19329,9 @@ yy510:
 		default: goto yy511;
 	}
 yy511:
-#line 1898 "src/compiler/asn_compiler.yacc"
+#line 1901 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-#line 19332 "asn_compiler.hpp"
+#line 19335 "asn_compiler.hpp"
 yy512:
 	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19400,9 +19403,9 @@ yy512:
 		default: goto yy513;
 	}
 yy513:
-#line 1900 "src/compiler/asn_compiler.yacc"
+#line 1903 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-#line 19406 "asn_compiler.hpp"
+#line 19409 "asn_compiler.hpp"
 yy514:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19537,9 +19540,9 @@ yy523:
 		default: goto yy524;
 	}
 yy524:
-#line 1921 "src/compiler/asn_compiler.yacc"
+#line 1924 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-#line 19543 "asn_compiler.hpp"
+#line 19546 "asn_compiler.hpp"
 yy525:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19709,9 +19712,9 @@ yy539:
 		default: goto yy540;
 	}
 yy540:
-#line 1856 "src/compiler/asn_compiler.yacc"
+#line 1859 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-#line 19715 "asn_compiler.hpp"
+#line 19718 "asn_compiler.hpp"
 yy541:
 	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19783,9 +19786,9 @@ yy541:
 		default: goto yy542;
 	}
 yy542:
-#line 1857 "src/compiler/asn_compiler.yacc"
+#line 1860 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-#line 19789 "asn_compiler.hpp"
+#line 19792 "asn_compiler.hpp"
 yy543:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19871,9 +19874,9 @@ yy545:
 		default: goto yy546;
 	}
 yy546:
-#line 1863 "src/compiler/asn_compiler.yacc"
+#line 1866 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-#line 19877 "asn_compiler.hpp"
+#line 19880 "asn_compiler.hpp"
 yy547:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19952,9 +19955,9 @@ yy548:
 		default: goto yy549;
 	}
 yy549:
-#line 1866 "src/compiler/asn_compiler.yacc"
+#line 1869 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-#line 19958 "asn_compiler.hpp"
+#line 19961 "asn_compiler.hpp"
 yy550:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20061,9 +20064,9 @@ yy555:
 		default: goto yy556;
 	}
 yy556:
-#line 1874 "src/compiler/asn_compiler.yacc"
+#line 1877 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-#line 20067 "asn_compiler.hpp"
+#line 20070 "asn_compiler.hpp"
 yy557:
 	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20135,9 +20138,9 @@ yy557:
 		default: goto yy558;
 	}
 yy558:
-#line 1877 "src/compiler/asn_compiler.yacc"
+#line 1880 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-#line 20141 "asn_compiler.hpp"
+#line 20144 "asn_compiler.hpp"
 yy559:
 	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20209,9 +20212,9 @@ yy559:
 		default: goto yy560;
 	}
 yy560:
-#line 1878 "src/compiler/asn_compiler.yacc"
+#line 1881 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-#line 20215 "asn_compiler.hpp"
+#line 20218 "asn_compiler.hpp"
 yy561:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20325,9 +20328,9 @@ yy567:
 		default: goto yy568;
 	}
 yy568:
-#line 1894 "src/compiler/asn_compiler.yacc"
+#line 1897 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-#line 20331 "asn_compiler.hpp"
+#line 20334 "asn_compiler.hpp"
 yy569:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20427,9 +20430,9 @@ yy573:
 		default: goto yy574;
 	}
 yy574:
-#line 1904 "src/compiler/asn_compiler.yacc"
+#line 1907 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-#line 20433 "asn_compiler.hpp"
+#line 20436 "asn_compiler.hpp"
 yy575:
 	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20501,9 +20504,9 @@ yy575:
 		default: goto yy576;
 	}
 yy576:
-#line 1906 "src/compiler/asn_compiler.yacc"
+#line 1909 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-#line 20507 "asn_compiler.hpp"
+#line 20510 "asn_compiler.hpp"
 yy577:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20774,9 +20777,9 @@ yy588:
 		default: goto yy589;
 	}
 yy589:
-#line 1839 "src/compiler/asn_compiler.yacc"
+#line 1842 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-#line 20780 "asn_compiler.hpp"
+#line 20783 "asn_compiler.hpp"
 yy590:
 	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20848,9 +20851,9 @@ yy590:
 		default: goto yy591;
 	}
 yy591:
-#line 1842 "src/compiler/asn_compiler.yacc"
+#line 1845 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-#line 20854 "asn_compiler.hpp"
+#line 20857 "asn_compiler.hpp"
 yy592:
 	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20922,9 +20925,9 @@ yy592:
 		default: goto yy593;
 	}
 yy593:
-#line 1845 "src/compiler/asn_compiler.yacc"
+#line 1848 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-#line 20928 "asn_compiler.hpp"
+#line 20931 "asn_compiler.hpp"
 yy594:
 	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20996,9 +20999,9 @@ yy594:
 		default: goto yy595;
 	}
 yy595:
-#line 1848 "src/compiler/asn_compiler.yacc"
+#line 1851 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-#line 21002 "asn_compiler.hpp"
+#line 21005 "asn_compiler.hpp"
 yy596:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21084,9 +21087,9 @@ yy598:
 		default: goto yy599;
 	}
 yy599:
-#line 1853 "src/compiler/asn_compiler.yacc"
+#line 1856 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-#line 21090 "asn_compiler.hpp"
+#line 21093 "asn_compiler.hpp"
 yy600:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21268,9 +21271,9 @@ yy607:
 		default: goto yy608;
 	}
 yy608:
-#line 1872 "src/compiler/asn_compiler.yacc"
+#line 1875 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-#line 21274 "asn_compiler.hpp"
+#line 21277 "asn_compiler.hpp"
 yy609:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21480,9 +21483,9 @@ yy620:
 		default: goto yy621;
 	}
 yy621:
-#line 1910 "src/compiler/asn_compiler.yacc"
+#line 1913 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-#line 21486 "asn_compiler.hpp"
+#line 21489 "asn_compiler.hpp"
 yy622:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21575,9 +21578,9 @@ yy625:
 		default: goto yy626;
 	}
 yy626:
-#line 1919 "src/compiler/asn_compiler.yacc"
+#line 1922 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-#line 21581 "asn_compiler.hpp"
+#line 21584 "asn_compiler.hpp"
 yy627:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21691,9 +21694,9 @@ yy633:
 		default: goto yy634;
 	}
 yy634:
-#line 1849 "src/compiler/asn_compiler.yacc"
+#line 1852 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-#line 21697 "asn_compiler.hpp"
+#line 21700 "asn_compiler.hpp"
 yy635:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21772,9 +21775,9 @@ yy636:
 		default: goto yy637;
 	}
 yy637:
-#line 1851 "src/compiler/asn_compiler.yacc"
+#line 1854 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-#line 21778 "asn_compiler.hpp"
+#line 21781 "asn_compiler.hpp"
 yy638:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21860,9 +21863,9 @@ yy640:
 		default: goto yy641;
 	}
 yy641:
-#line 1861 "src/compiler/asn_compiler.yacc"
+#line 1864 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-#line 21866 "asn_compiler.hpp"
+#line 21869 "asn_compiler.hpp"
 yy642:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21962,9 +21965,9 @@ yy646:
 		default: goto yy647;
 	}
 yy647:
-#line 1873 "src/compiler/asn_compiler.yacc"
+#line 1876 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-#line 21968 "asn_compiler.hpp"
+#line 21971 "asn_compiler.hpp"
 yy648:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22127,9 +22130,9 @@ yy661:
 		default: goto yy662;
 	}
 yy662:
-#line 1922 "src/compiler/asn_compiler.yacc"
+#line 1925 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-#line 22133 "asn_compiler.hpp"
+#line 22136 "asn_compiler.hpp"
 yy663:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22229,9 +22232,9 @@ yy667:
 		default: goto yy668;
 	}
 yy668:
-#line 1838 "src/compiler/asn_compiler.yacc"
+#line 1841 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-#line 22235 "asn_compiler.hpp"
+#line 22238 "asn_compiler.hpp"
 yy669:
 	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22303,9 +22306,9 @@ yy669:
 		default: goto yy670;
 	}
 yy670:
-#line 1850 "src/compiler/asn_compiler.yacc"
+#line 1853 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-#line 22309 "asn_compiler.hpp"
+#line 22312 "asn_compiler.hpp"
 yy671:
 	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22377,9 +22380,9 @@ yy671:
 		default: goto yy672;
 	}
 yy672:
-#line 1855 "src/compiler/asn_compiler.yacc"
+#line 1858 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-#line 22383 "asn_compiler.hpp"
+#line 22386 "asn_compiler.hpp"
 yy673:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22556,9 +22559,9 @@ yy688:
 		default: goto yy689;
 	}
 yy689:
-#line 1914 "src/compiler/asn_compiler.yacc"
+#line 1917 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-#line 22562 "asn_compiler.hpp"
+#line 22565 "asn_compiler.hpp"
 yy690:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22707,9 +22710,9 @@ yy701:
 		default: goto yy702;
 	}
 yy702:
-#line 1879 "src/compiler/asn_compiler.yacc"
+#line 1882 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-#line 22713 "asn_compiler.hpp"
+#line 22716 "asn_compiler.hpp"
 yy703:
 	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22781,9 +22784,9 @@ yy703:
 		default: goto yy704;
 	}
 yy704:
-#line 1881 "src/compiler/asn_compiler.yacc"
+#line 1884 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-#line 22787 "asn_compiler.hpp"
+#line 22790 "asn_compiler.hpp"
 yy705:
 	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22855,9 +22858,9 @@ yy705:
 		default: goto yy706;
 	}
 yy706:
-#line 1882 "src/compiler/asn_compiler.yacc"
+#line 1885 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-#line 22861 "asn_compiler.hpp"
+#line 22864 "asn_compiler.hpp"
 yy707:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22936,9 +22939,9 @@ yy708:
 		default: goto yy709;
 	}
 yy709:
-#line 1886 "src/compiler/asn_compiler.yacc"
+#line 1889 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-#line 22942 "asn_compiler.hpp"
+#line 22945 "asn_compiler.hpp"
 yy710:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23038,9 +23041,9 @@ yy714:
 		default: goto yy715;
 	}
 yy715:
-#line 1902 "src/compiler/asn_compiler.yacc"
+#line 1905 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-#line 23044 "asn_compiler.hpp"
+#line 23047 "asn_compiler.hpp"
 yy716:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23161,9 +23164,9 @@ yy723:
 		default: goto yy724;
 	}
 yy724:
-#line 1865 "src/compiler/asn_compiler.yacc"
+#line 1868 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-#line 23167 "asn_compiler.hpp"
+#line 23170 "asn_compiler.hpp"
 yy725:
 	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23235,9 +23238,9 @@ yy725:
 		default: goto yy726;
 	}
 yy726:
-#line 1870 "src/compiler/asn_compiler.yacc"
+#line 1873 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-#line 23241 "asn_compiler.hpp"
+#line 23244 "asn_compiler.hpp"
 yy727:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23316,9 +23319,9 @@ yy728:
 		default: goto yy729;
 	}
 yy729:
-#line 1871 "src/compiler/asn_compiler.yacc"
+#line 1874 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-#line 23322 "asn_compiler.hpp"
+#line 23325 "asn_compiler.hpp"
 yy730:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23397,9 +23400,9 @@ yy731:
 		default: goto yy732;
 	}
 yy732:
-#line 1888 "src/compiler/asn_compiler.yacc"
+#line 1891 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-#line 23403 "asn_compiler.hpp"
+#line 23406 "asn_compiler.hpp"
 yy733:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23478,9 +23481,9 @@ yy734:
 		default: goto yy735;
 	}
 yy735:
-#line 1897 "src/compiler/asn_compiler.yacc"
+#line 1900 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-#line 23484 "asn_compiler.hpp"
+#line 23487 "asn_compiler.hpp"
 yy736:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23634,9 +23637,9 @@ yy739:
 		default: goto yy740;
 	}
 yy740:
-#line 1912 "src/compiler/asn_compiler.yacc"
+#line 1915 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-#line 23640 "asn_compiler.hpp"
+#line 23643 "asn_compiler.hpp"
 yy741:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23722,9 +23725,9 @@ yy743:
 		default: goto yy744;
 	}
 yy744:
-#line 1924 "src/compiler/asn_compiler.yacc"
+#line 1927 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-#line 23728 "asn_compiler.hpp"
+#line 23731 "asn_compiler.hpp"
 yy745:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23817,9 +23820,9 @@ yy748:
 		default: goto yy749;
 	}
 yy749:
-#line 1885 "src/compiler/asn_compiler.yacc"
+#line 1888 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-#line 23823 "asn_compiler.hpp"
+#line 23826 "asn_compiler.hpp"
 yy750:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23926,9 +23929,9 @@ yy755:
 		default: goto yy756;
 	}
 yy756:
-#line 1923 "src/compiler/asn_compiler.yacc"
+#line 1926 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-#line 23932 "asn_compiler.hpp"
+#line 23935 "asn_compiler.hpp"
 yy757:
 	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24000,9 +24003,9 @@ yy757:
 		default: goto yy758;
 	}
 yy758:
-#line 1835 "src/compiler/asn_compiler.yacc"
+#line 1838 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-#line 24006 "asn_compiler.hpp"
+#line 24009 "asn_compiler.hpp"
 yy759:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24081,9 +24084,9 @@ yy760:
 		default: goto yy761;
 	}
 yy761:
-#line 1869 "src/compiler/asn_compiler.yacc"
+#line 1872 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-#line 24087 "asn_compiler.hpp"
+#line 24090 "asn_compiler.hpp"
 yy762:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24162,9 +24165,9 @@ yy763:
 		default: goto yy764;
 	}
 yy764:
-#line 1899 "src/compiler/asn_compiler.yacc"
+#line 1902 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-#line 24168 "asn_compiler.hpp"
+#line 24171 "asn_compiler.hpp"
 yy765:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24243,9 +24246,9 @@ yy766:
 		default: goto yy767;
 	}
 yy767:
-#line 1916 "src/compiler/asn_compiler.yacc"
+#line 1919 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-#line 24249 "asn_compiler.hpp"
+#line 24252 "asn_compiler.hpp"
 yy768:
 	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24317,9 +24320,9 @@ yy768:
 		default: goto yy769;
 	}
 yy769:
-#line 1920 "src/compiler/asn_compiler.yacc"
+#line 1923 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-#line 24323 "asn_compiler.hpp"
+#line 24326 "asn_compiler.hpp"
 yy770:
 	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24391,9 +24394,9 @@ yy770:
 		default: goto yy771;
 	}
 yy771:
-#line 1859 "src/compiler/asn_compiler.yacc"
+#line 1862 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-#line 24397 "asn_compiler.hpp"
+#line 24400 "asn_compiler.hpp"
 yy772:
 	yyaccept = 98;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24465,9 +24468,9 @@ yy772:
 		default: goto yy773;
 	}
 yy773:
-#line 1890 "src/compiler/asn_compiler.yacc"
+#line 1893 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-#line 24471 "asn_compiler.hpp"
+#line 24474 "asn_compiler.hpp"
 yy774:
 	yyaccept = 99;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24539,11 +24542,11 @@ yy774:
 		default: goto yy775;
 	}
 yy775:
-#line 1903 "src/compiler/asn_compiler.yacc"
+#line 1906 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
-#line 24545 "asn_compiler.hpp"
+#line 24548 "asn_compiler.hpp"
 }
-#line 1978 "src/compiler/asn_compiler.yacc"
+#line 1981 "src/compiler/asn_compiler.yacc"
 
         }
     }
-- 
2.43.0


From 4800a623eef5946b75d9516e61b33a00899376c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 46/53] fix: quotation marks and backslashes in printed strings
 were not marked

---
 include/fast_ber/ber_types/StringImpl.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/StringImpl.hpp b/include/fast_ber/ber_types/StringImpl.hpp
index d62c39d..f5bf934 100644
--- a/include/fast_ber/ber_types/StringImpl.hpp
+++ b/include/fast_ber/ber_types/StringImpl.hpp
@@ -155,9 +155,18 @@ bool StringImpl<tag, Identifier>::operator==(const char* rhs) const noexcept
 template <UniversalTag tag, typename Identifier>
 std::ostream& operator<<(std::ostream& os, const StringImpl<tag, Identifier>& str) noexcept
 {
-    if (std::all_of(str.begin(), str.end(), [](char c) { return std::isprint(c); }))
+    if (std::all_of(str.begin(), str.end(), [](char c) { return std::isprint(static_cast<unsigned char>(c)); }))
     {
-        return os << '"' << absl::string_view(str) << '"';
+        os << '"';
+        for (const char c : absl::string_view(str))
+        {
+            if (c == '"' || c == '\\')
+            {
+                os << '\\';
+            }
+            os << c;
+        }
+        return os << '"';
     }
     else
     {
-- 
2.43.0


From e001724996f9071b889a2ffcc76dbdb6ec647a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 47/53] fix: REAL elements were printed without content

---
 src/util/BerView.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/BerView.cpp b/src/util/BerView.cpp
index f2925f8..046b47a 100644
--- a/src/util/BerView.cpp
+++ b/src/util/BerView.cpp
@@ -41,7 +41,7 @@ std::ostream& operator<<(std::ostream& os, BerView view) noexcept
                     os << ObjectIdentifier<>(view);
                     break;
                 case UniversalTag::real:
-                    // os << Real<>(view);
+                    os << Real<>(view);
                     break;
                 case UniversalTag::enumerated:
                     os << Integer<>(view);
-- 
2.43.0


From f55e497213335c5ca36e4a1a1be959134fc375da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 48/53] fix: ENUMERATED elements were printed as zero

---
 src/util/BerView.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/BerView.cpp b/src/util/BerView.cpp
index 046b47a..9136671 100644
--- a/src/util/BerView.cpp
+++ b/src/util/BerView.cpp
@@ -44,7 +44,7 @@ std::ostream& operator<<(std::ostream& os, BerView view) noexcept
                     os << Real<>(view);
                     break;
                 case UniversalTag::enumerated:
-                    os << Integer<>(view);
+                    os << Integer<ExplicitId<UniversalTag::enumerated>>(view);
                     break;
                 case UniversalTag::utf8_string:
                     os << UTF8String<>(view);
-- 
2.43.0


From cb4ee846229ee918020731825b8b0577339182eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:05 +0000
Subject: [PATCH 49/53] fix: printing a deeply nested packet overflowed the
 call stack

---
 src/util/BerView.cpp | 60 +++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/util/BerView.cpp b/src/util/BerView.cpp
index 9136671..e24e66e 100644
--- a/src/util/BerView.cpp
+++ b/src/util/BerView.cpp
@@ -1,16 +1,12 @@
 #include "fast_ber/util/BerView.hpp"
 #include "fast_ber/ber_types/All.hpp"
 
+#include <vector>
+
 namespace fast_ber
 {
-std::ostream& operator<<(std::ostream& os, BerView view) noexcept
+static void print_start(std::ostream& os, const BerView& view)
 {
-    if (!view.is_valid())
-    {
-        os << "null";
-        return os;
-    }
-
     os << "{ \"length\": " << view.ber_length();
     os << ", \"identifier\": " << view.identifier();
     os << ", \"content\": ";
@@ -112,20 +108,50 @@ std::ostream& operator<<(std::ostream& os, BerView view) noexcept
     }
     else
     {
-        bool first = true;
         os << "[";
-        for (const BerView& child : view)
+    }
+}
+
+std::ostream& operator<<(std::ostream& os, BerView view) noexcept
+{
+    if (!view.is_valid())
+    {
+        os << "null";
+        return os;
+    }
+
+    // The next child of every element that is still open. Elements can be nested too deeply for recursion
+    std::vector<BerViewIterator> open_elements;
+    while (true)
+    {
+        print_start(os, view);
+        bool first_child = view.construction() == Construction::constructed;
+        if (first_child)
         {
-            if (!first)
-            {
-                os << ", ";
-            }
-            os << child;
-            first = false;
+            open_elements.push_back(view.begin());
+        }
+        else
+        {
+            os << " }";
+        }
+
+        while (!open_elements.empty() && !open_elements.back()->is_valid())
+        {
+            os << "] }";
+            open_elements.pop_back();
+            first_child = false;
+        }
+        if (open_elements.empty())
+        {
+            return os;
+        }
+        if (!first_child)
+        {
+            os << ", ";
         }
-        os << "]";
+        view = *open_elements.back();
+        ++open_elements.back();
     }
-    return os << " }";
 }
 
 } // namespace fast_ber
-- 
2.43.0


From af997472dfaf26c5fb0c6563dbdba6e77a7e2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:48 +0000
Subject: [PATCH 50/53] fix: alternatives after the extension marker come after
 those of the extension root

---
 src/compiler/asn_compiler.yacc             | 2 +-
 src/compiler/autogen_copy/asn_compiler.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 36b9a21..0b13e8c 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1318,7 +1318,7 @@ RootAlternativeTypeList:
 |   AlternativeTypeList "," ELIPSIS
     { $$ = $1; }
 |   AlternativeTypeList "," ELIPSIS "," AlternativeTypeList
-    { $$ = $1; $$.insert($$.begin(), $5.begin(), $5.end()); }
+    { $$ = $1; $$.insert($$.end(), $5.begin(), $5.end()); }
 
 AlternativeTypeList:
     NamedType
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 639edb8..97af5aa 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -9685,7 +9685,7 @@ namespace yy {
     break;
 
   case 343: // RootAlternativeTypeList: AlternativeTypeList "," "..." "," AlternativeTypeList
-    { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
+    { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().end(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
     break;
 
   case 344: // AlternativeTypeList: NamedType
-- 
2.43.0


From 102ba45b40f3f2df8625320b4fa9ff8d40fd5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 51/53] fix: bind actual parameters in the order they are
 written

---
 src/compiler/asn_compiler.yacc             |   4 +-
 src/compiler/autogen_copy/asn_compiler.hpp | 478 ++++++++++-----------
 2 files changed, 241 insertions(+), 241 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 0b13e8c..4aefa4a 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -925,8 +925,8 @@ ParameterizedValue:
 ActualParameterList:
     ActualParameter 
     { $$.push_back($1); }
-|   ActualParameter "," ActualParameterList
-    { $$ = $3; $$.push_back($1); }
+|   ActualParameterList "," ActualParameter
+    { $$ = $1; $$.push_back($3); }
 
 ActualParameter:
     Type
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 97af5aa..456856e 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -9189,8 +9189,8 @@ namespace yy {
     { yylhs.value.as < std::vector<Type> > ().push_back(yystack_[0].value.as < Type > ()); }
     break;
 
-  case 203: // ActualParameterList: ActualParameter "," ActualParameterList
-    { yylhs.value.as < std::vector<Type> > () = yystack_[0].value.as < std::vector<Type> > (); yylhs.value.as < std::vector<Type> > ().push_back(yystack_[2].value.as < Type > ()); }
+  case 203: // ActualParameterList: ActualParameterList "," ActualParameter
+    { yylhs.value.as < std::vector<Type> > () = yystack_[2].value.as < std::vector<Type> > (); yylhs.value.as < std::vector<Type> > ().push_back(yystack_[0].value.as < Type > ()); }
     break;
 
   case 204: // ActualParameter: Type
@@ -10300,101 +10300,101 @@ namespace yy {
   }
 
 
-  const short asn1_parser::yypact_ninf_ = -663;
+  const short asn1_parser::yypact_ninf_ = -736;
 
   const short asn1_parser::yytable_ninf_ = -502;
 
   const short
   asn1_parser::yypact_[] =
   {
-     -86,  -663,   173,   -86,    35,    75,  -663,  -663,   242,    19,
-    -663,    73,  -663,    87,   162,  -663,  -663,   136,    19,  -663,
-    -663,  -663,   158,   132,  -663,  -663,   193,   224,   240,   246,
-    -663,  -663,   355,   307,   221,  -663,  -663,  -663,   293,   248,
-     244,  -663,  -663,  -663,   307,   243,  -663,   343,  -663,   221,
-    -663,   222,  -663,    -1,  -663,   309,   245,  -663,  -663,   252,
-     253,  -663,  -663,   273,  -663,   348,   199,   199,  -663,  -663,
-     199,   280,  -663,   264,   199,  -663,   -15,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,   199,  -663,  -663,  -663,  2747,
-    3444,  -663,  -663,  -663,  -663,   -86,  -663,  -663,  -663,  -663,
-    -663,   304,  -663,  -663,   305,   287,  -663,  -663,  -663,   322,
-     294,  -663,  -663,  -663,  -663,  -663,   332,   296,  -663,  -663,
-     357,  -663,   321,  -663,  -663,  -663,  -663,  -663,    -6,     0,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    3543,  4042,   411,  -663,   290,  -663,  -663,   314,  -663,  -663,
-    3642,   299,  -663,  -663,   316,  -663,  -663,   317,   184,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  2850,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,   122,   315,   308,  4141,   187,    -5,   311,  -663,
-     323,   324,  -663,   300,  -663,   -50,    43,   300,  -663,  -663,
-    4141,   326,  2549,  1557,   366,   367,  4141,  2648,   370,   371,
-     336,  -663,  -663,  -663,   290,  -663,  -663,   326,   330,  -663,
-      88,  -663,    27,  -663,   320,  -663,   329,   326,   -41,   335,
-      20,   328,   338,  3543,   188,   328,  1813,   349,  -663,  4141,
-    4141,   326,    36,  4141,    18,   190,  2443,   452,    34,  -663,
-     300,  -663,   352,  -663,   341,  4141,   350,  -663,   356,   346,
-    -663,   354,   347,  -663,  -663,   358,    94,  -663,   354,   326,
-    -663,  3745,  -663,   397,   350,  -663,     2,    24,   362,   351,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,   432,    -7,
-     455,  4141,   458,  -663,   326,  -663,  -663,  2443,   479,  -663,
-     310,  1682,  1938,    96,   375,   377,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,   326,  -663,  -663,  -663,   350,  -663,  -663,
-     365,   -44,   -33,   -10,     1,  -663,   432,   449,  -663,    72,
-    -663,  4141,  -663,   395,   390,  -663,  -663,  -663,  -663,  -663,
-    -663,   398,   383,  4141,  4141,   326,  -663,  -663,   400,  4141,
-    4141,   201,    26,  -663,  4042,   199,  -663,  -663,  -663,  -663,
-      39,  -663,  -663,  -663,   385,  -663,  -663,   326,  2443,   385,
-    -663,  -663,  -663,  -663,  -663,  -663,   401,  -663,  2443,   209,
-    -663,  -663,  2443,  -663,   144,   171,  -663,   381,  -663,   403,
-     392,   326,   178,   146,   404,   399,  -663,  -663,  -663,  -663,
-     103,   405,  1938,  -663,   326,   326,   385,  -663,   326,  -663,
-    -663,  2443,  -663,  -663,    98,   416,  -663,  -663,   146,   408,
-     409,  -663,    34,   427,    34,  -663,  -663,  -663,   429,   117,
-    -663,   430,  -663,   -47,   326,  2293,  -663,  -663,   -46,    41,
-     410,  -663,   300,  4141,   421,   759,  -663,   759,  -663,  -663,
-    2949,  2194,  -663,   433,    12,  2443,  -663,   146,  -663,   326,
-     436,   426,   439,   428,   441,   422,  1813,   443,   450,  -663,
-    -663,  2194,  -663,  -663,  2194,  -663,   326,    30,  -663,    11,
-     326,  -663,   326,  -663,  -663,   326,  -663,   326,  -663,  4240,
-    3048,    43,   125,  -663,  -663,    32,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,   442,   328,   146,
-     146,   146,  1083,   569,  -663,  1813,  2443,  2443,  2443,  2443,
-    2443,   333,     9,   460,   146,   328,   424,  -663,   462,  -663,
-    -663,    55,  -663,   300,    61,   451,  -663,  -663,     5,  -663,
-    -663,   350,  -663,   453,   465,  -663,   326,  3147,  -663,   347,
-    -663,  -663,   350,  -663,  -663,  3844,   549,   146,  -663,  -663,
-      59,  -663,  1938,  -663,   471,  -663,   114,   134,  -663,   469,
-    -663,   461,   -10,  -663,  -663,   499,  -663,  -663,  -663,  -663,
-      38,   -18,    74,   -18,    40,   481,   201,  -663,  4141,  -663,
-    -663,  -663,  -663,  -663,   146,   472,  -663,   146,   146,   146,
-     146,   146,  -663,  -663,  -663,  -663,   475,  -663,   476,   478,
-     300,  2443,   470,  -663,  -663,  -663,   473,   477,  -663,   483,
-    -663,   480,   487,   241,   468,  2443,   142,   491,   482,   326,
-    -663,   485,   488,   492,  -663,  -663,   422,  -663,  1938,  -663,
-      29,  -663,  -663,  -663,  -663,    48,    56,    56,  -663,  -663,
-    -663,   514,  -663,  -663,   326,  -663,  -663,  -663,  -663,   497,
-     146,   300,  3246,  3943,  2411,  -663,    33,   146,  -663,   300,
-    -663,   300,  -663,  -663,    81,  1938,   488,   300,   300,  -663,
-    -663,  1432,  -663,  -663,  -663,  -663,  -663,   349,  -663,  -663,
-     759,  -663,  -663,  -663,   501,   300,   498,  -663,   500,  1432,
-    -663,   146,   495,   504,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,   492,  -663,  4809,  4897,  -663,   502,  -663,  -663,   401,
-    -663,  -663,   304,  -663,  -663,  -663,   305,   287,  -663,  -663,
-    -663,  -663,  2443,  -663,  -663,  -663,  -663,  -663,   322,  -663,
-    -663,  -663,   294,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,   332,  -663,   212,  -663,  -663,
-    -663,  -663,  -663,   357,   321,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,    -6,     0,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,   503,  -663,  -663,  -663,
-    -663,  -663,    98,  2069,  -663,   506,  1285,  -663,  -663,   326,
-     146,  -663,  -663,  -663,  4713,  -663,   300,  3345,   146,  -663,
-    -663,   490,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  4713,  -663,  4479,  -663,
-    -663,  -663,  4362,  -663,   507,   517,  4596,  -663,  -663,  -663,
-    -663,  3943,  -663,  -663,   509,  3943
+     -69,  -736,   106,   -69,    65,    57,  -736,  -736,   146,    19,
+    -736,    69,  -736,   151,    27,  -736,  -736,   107,    19,  -736,
+    -736,  -736,   132,   121,  -736,  -736,   172,   185,   191,   246,
+    -736,  -736,   309,   340,   179,  -736,  -736,  -736,   254,   222,
+     232,  -736,  -736,  -736,   340,   216,  -736,   319,  -736,   179,
+    -736,   243,  -736,    -1,  -736,   289,   227,  -736,  -736,   229,
+     239,  -736,  -736,   240,  -736,   323,   217,   217,  -736,  -736,
+     217,   256,  -736,   245,   217,  -736,   -15,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,   217,  -736,  -736,  -736,  2747,
+    3444,  -736,  -736,  -736,  -736,   -69,  -736,  -736,  -736,  -736,
+    -736,   287,  -736,  -736,   291,   273,  -736,  -736,  -736,   317,
+     296,  -736,  -736,  -736,  -736,  -736,   324,   300,  -736,  -736,
+     344,  -736,   332,  -736,  -736,  -736,  -736,  -736,   -13,    -6,
+    -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+    3543,  4042,   412,  -736,   302,  -736,  -736,   316,  -736,  -736,
+    3642,   303,  -736,  -736,   321,  -736,  -736,   322,   161,  -736,
+    -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,  2850,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+    -736,  -736,   122,   318,   311,  4141,   184,    -5,   312,  -736,
+     328,   329,  -736,   297,  -736,   -50,    43,   297,  -736,  -736,
+    4141,   331,  2549,  1557,   367,   371,  4141,  2648,   373,   375,
+     337,  -736,  -736,  -736,   302,  -736,  -736,   331,   330,  -736,
+      88,  -736,    94,  -736,   333,  -736,   335,   331,    71,   336,
+      20,   376,   346,  3543,   188,   376,  1813,   349,  -736,  4141,
+    4141,   331,    36,  4141,    18,   190,  2443,   456,    34,  -736,
+     297,  -736,   355,  -736,   345,  4141,   351,  -736,   356,   347,
+    -736,   359,   350,  -736,  -736,   352,    99,  -736,   359,   331,
+    -736,  3745,  -736,   400,   351,  -736,     2,    13,   370,   361,
+    -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,   434,    76,
+     459,  4141,   461,  -736,   331,  -736,  -736,  2443,   483,  -736,
+     360,  1682,  1938,    96,   378,   383,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,   331,  -736,  -736,  -736,   351,  -736,  -736,
+     381,   -44,   -33,   -10,     1,  -736,   434,   462,  -736,   178,
+    -736,  4141,  -736,   398,   392,  -736,  -736,  -736,  -736,  -736,
+    -736,   399,   387,  4141,  4141,   331,  -736,  -736,   401,  4141,
+    4141,   299,    26,  -736,  4042,   217,  -736,  -736,  -736,  -736,
+      39,  -736,  -736,  -736,   389,  -736,  -736,   331,  2443,   389,
+    -736,  -736,  -736,  -736,  -736,  -736,   402,  -736,  2443,   228,
+    -736,  -736,  2443,  -736,    84,   204,  -736,   384,  -736,   117,
+    -736,   331,   192,   144,   404,   397,  -736,  -736,  -736,  -736,
+     103,   405,  1938,  -736,   331,   331,   389,  -736,   331,  -736,
+    -736,  2443,  -736,  -736,   124,   418,  -736,  -736,   144,   408,
+     409,  -736,    34,   427,    34,  -736,  -736,  -736,   429,   127,
+    -736,   430,  -736,   -47,   331,  2293,  -736,  -736,   -46,    41,
+     410,  -736,   297,  4141,   421,   759,  -736,   759,  -736,  -736,
+    2949,  2194,  -736,   433,    12,  2443,  -736,   144,  -736,   331,
+     436,   426,   439,   428,   441,   422,  1813,   443,   449,  -736,
+    -736,  2194,  -736,  -736,  2194,  -736,   331,    30,  -736,    11,
+     331,  -736,   331,  -736,  -736,   331,  -736,   331,  -736,  4240,
+    3048,    43,   134,  -736,  -736,    32,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,  -736,  -736,   444,   376,   144,
+     144,   144,  1083,   568,  -736,  1813,  2443,  2443,  2443,  2443,
+    2443,   382,     9,   455,   144,   376,   424,  -736,   460,  -736,
+    -736,    55,  -736,   297,    61,   450,  -736,  -736,   -43,  -736,
+    -736,   351,  -736,   465,   466,  -736,   331,  3147,  -736,   350,
+    -736,  -736,   351,  -736,  -736,  3844,   548,   144,  -736,  -736,
+      23,  -736,  1938,  -736,   467,  -736,    14,   142,  -736,   147,
+    -736,   457,   -10,  -736,  -736,   499,  -736,  -736,  -736,  -736,
+      35,   -18,    74,   -18,    37,   478,   299,  -736,  4141,  -736,
+    -736,  -736,  -736,  -736,   144,   472,  -736,   144,   144,   144,
+     144,   144,  -736,  -736,  -736,  -736,   474,  -736,   475,   476,
+     297,  2443,   468,  -736,  -736,  -736,   469,   470,  -736,   485,
+    -736,   471,   489,   293,   480,  2443,   158,   491,   482,   331,
+    -736,   484,   487,   488,  -736,  -736,   422,  -736,  1938,  -736,
+      29,  -736,  -736,  -736,  -736,    38,    40,    40,  -736,  -736,
+    -736,   504,  -736,  -736,   331,  -736,  -736,  -736,  -736,   492,
+     144,   297,  3246,  3943,  2411,  -736,    33,   144,  -736,   297,
+    -736,   297,  -736,  -736,    81,  1938,   487,   297,   297,  -736,
+    -736,  1432,  -736,  -736,  -736,  -736,  -736,   349,  -736,  -736,
+     759,  -736,  -736,  -736,   498,   297,   493,  -736,   497,  1432,
+    -736,   144,   494,   511,  -736,  -736,  -736,  -736,  -736,  -736,
+    -736,   488,  -736,  4809,  4897,  -736,   500,  -736,  -736,   402,
+    -736,  -736,   287,  -736,  -736,  -736,   291,   273,  -736,  -736,
+    -736,  -736,  2443,  -736,  -736,  -736,  -736,  -736,   317,  -736,
+    -736,  -736,   296,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,   324,  -736,   212,  -736,  -736,
+    -736,  -736,  -736,   344,   332,  -736,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,  -736,   -13,    -6,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,  -736,   502,  -736,  -736,  -736,
+    -736,  -736,   124,  2069,  -736,   506,  1285,  -736,  -736,   331,
+     144,  -736,  -736,  -736,  4713,  -736,   297,  3345,   144,  -736,
+    -736,   496,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,  -736,  4713,  -736,  4479,  -736,
+    -736,  -736,  4362,  -736,   509,   512,  4596,  -736,  -736,  -736,
+    -736,  3943,  -736,  -736,   510,  3943
   };
 
   const short
@@ -10493,29 +10493,29 @@ namespace yy {
   const short
   asn1_parser::yypgoto_[] =
   {
-    -663,   644,  -663,  -663,  -136,  -663,  -129,  -663,   407,  -663,
-    -663,    57,  -476,    86,  -663,  -663,  -663,  -192,  -663,    -3,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -205,  -563,
-    -663,  -663,  -663,  -662,  -457,  -663,   -22,  -663,  -663,  -663,
-    -663,  -663,  -150,  -146,   102,  -663,  -663,   419,  -663,   505,
-    -663,  -663,  -663,  -663,  -663,   578,  -663,   312,  -663,   104,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-      28,   -13,    -4,  -663,  -663,  -663,  -663,  -663,  -663,   659,
-    -663,   648,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,   607,  -663,   629,   615,  -120,   601,  -663,  -663,
-     -72,  -663,  -663,  -414,  -663,  -663,  -663,  -663,  -663,  -663,
-     374,  -663,  -188,  -229,  -253,  -663,  -663,     3,  -663,  -663,
-    -169,  -663,  -663,  -187,  -155,  -663,  -663,    16,  -432,  -663,
-    -663,  -663,   145,  -663,  -663,  -663,   474,  -543,  -442,  -663,
-    -663,  -663,  -663,  -663,  -663,    77,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,   -95,  -663,    71,   151,  -663,
-    -663,  -663,   682,  -663,   645,   654,  -663,  -663,  -663,  -663,
-     420,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -127,  -663,  -663,  -280,  -292,  -663,  -663,   218,  -663,   220,
-    -663,   369,  -663,  -663,   247,  -663,  -430,  -663,  -663,  -663,
-    -663,  -663,  -663,   121,  -121,  -663,  -663,  -663,  -663,  -663,
-    -338,  -663,  -663,  -663,  -663,  -663,  -663,  -258,  -663,   325,
-      -9,   530,    10,  -356,  -663
+    -736,   638,  -736,  -736,  -136,  -736,  -129,  -736,   407,  -736,
+    -736,    46,  -476,    90,  -736,  -736,  -736,  -166,  -736,    -4,
+    -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -205,  -735,
+    -736,  -736,  -736,  -662,  -457,  -736,   -22,  -736,  -736,  -736,
+    -736,  -736,  -152,  -147,    92,  -736,  -736,   419,  -736,   505,
+    -736,  -736,  -736,  -736,  -736,   577,  -736,   304,  -736,   104,
+    -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+      28,    -3,   -14,  -736,  -736,  -736,  -736,  -736,  -736,   658,
+    -736,   645,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+    -736,  -736,   606,  -736,   628,   612,  -120,   600,  -736,  -736,
+     -72,  -736,  -736,   210,   162,  -736,  -736,  -736,  -736,  -736,
+     374,  -736,  -188,  -229,  -253,  -736,  -736,     0,  -736,  -736,
+    -169,  -736,  -736,  -187,  -155,  -736,  -736,    17,  -432,  -736,
+    -736,  -736,   148,  -736,  -736,  -736,   477,  -543,  -442,  -736,
+    -736,  -736,  -736,  -736,  -736,    72,  -736,  -736,  -736,  -736,
+    -736,  -736,  -736,  -736,  -736,   -93,  -736,   128,   152,  -736,
+    -736,  -736,   687,  -736,   650,   656,  -736,  -736,  -736,  -736,
+     420,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,  -736,
+    -127,  -736,  -736,  -280,  -292,  -736,  -736,   221,  -736,   220,
+    -736,   369,  -736,  -736,   247,  -736,  -430,  -736,  -736,  -736,
+    -736,  -736,  -736,   126,  -121,  -736,  -736,  -736,  -736,  -736,
+    -333,  -736,  -736,  -736,  -736,  -736,  -736,  -258,  -736,   325,
+      -9,   530,    10,  -356,  -736
   };
 
   const short
@@ -10555,72 +10555,72 @@ namespace yy {
       56,   419,   474,   419,   291,   292,   293,   294,   431,   295,
      419,   296,   602,   515,   324,   291,   292,   804,   419,    95,
      297,    97,   455,   367,   467,   419,   597,   586,   325,   431,
-     371,   372,   579,     1,   558,   618,   566,  -429,  -426,   477,
-     273,   653,   266,    98,   457,   545,   551,   274,   482,   479,
-      21,   210,   598,    71,   282,  -196,     8,   216,   650,    21,
-     658,   456,  -498,   303,   512,   654,   211,   252,   697,   194,
-      16,  -426,   211,    16,    16,   200,   700,   222,   213,   584,
-     715,   606,   480,   458,   224,   368,  -450,   224,   212,  -116,
-     213,   599,    70,  -450,   217,   519,   213,   651,   213,   659,
-     708,   213,   533,   252,   369,   520,  -429,   698,   213,   521,
-     309,   320,   324,   324,   804,   701,   621,   483,    57,    58,
-     228,   228,   363,   691,   134,   586,   325,   325,   511,    58,
-     585,    58,    25,   653,   364,   491,   493,    57,   534,    16,
-     716,   496,   498,     6,   717,   511,   512,   466,     1,   559,
-      58,   636,   712,     1,   230,    57,   432,   654,     1,    58,
-       1,    58,   272,   692,   265,  -466,   271,    26,   278,     9,
-     870,   281,  -466,   281,     1,    58,    23,   281,   281,    16,
-       1,    58,   567,  -498,  -498,   803,   275,   692,  -498,   451,
-    -497,    27,  -497,   352,  -497,   499,   500,  -118,   231,   501,
-     563,   452,    28,   803,  -497,   224,  -497,  -498,  -498,   320,
-     320,   531,   542,   324,   236,   514,  -116,   402,  -196,   438,
-     595,   441,   642,   228,   543,   546,   411,   325,    13,   645,
-     252,    30,   596,  -196,    16,   555,   430,   678,   430,   604,
-     813,   646,    33,   607,   608,   609,   610,   611,  -166,   679,
-     640,  -275,    53,   526,    32,  -275,   324,   527,   324,  -275,
-     549,   528,   324,   622,   554,   868,   402,   523,   516,    35,
-     325,  -498,   325,   868,   627,   247,   325,    38,   256,   378,
-     213,   421,   324,   213,   213,   324,   213,   430,   324,  -274,
-     512,   352,   352,  -274,    41,    42,   325,   374,   874,   325,
-      36,   379,   325,   207,  -287,  -287,   207,   538,  -287,   540,
-     320,   713,   568,   714,   281,   281,    37,   224,    57,    58,
-     281,   281,   371,   372,   469,   470,   690,   612,   613,    15,
-     537,    44,   537,   590,    46,   594,  -126,   213,   670,    47,
-     224,    48,   274,   547,   228,   563,    50,   553,    63,    51,
-     430,    66,   677,   320,   552,   320,   869,    68,   430,   320,
-      70,    63,    89,   719,    69,    63,   224,    71,   430,    63,
-     656,   657,   430,   324,    72,    92,    93,   201,   202,   320,
-      89,   203,   320,   204,   192,   320,   324,   325,   205,   206,
-     207,   711,   352,   438,   209,   438,   208,   239,   241,   629,
-     325,   430,   261,   563,   265,   242,   224,   245,   810,   271,
-     246,  -115,   430,   278,   430,   253,   254,   258,   260,   257,
-      16,   281,   213,   353,   354,   352,   818,   359,   360,   430,
-     361,   365,   311,   158,   196,   430,   238,   430,   362,   537,
-    -109,   352,   619,   412,   419,   430,   366,   442,   443,   324,
-     449,   447,   445,   448,   453,  -500,   411,   459,   460,   520,
-     461,   352,   468,   325,   352,   463,   450,   430,   465,   475,
-     320,   476,   478,   291,   292,   293,   294,  -432,   295,   228,
-     296,   275,   682,   320,   227,   237,   324,   546,   487,   297,
-     488,   489,  -118,   518,   244,   494,  -262,  -312,   524,   525,
+     371,   372,    26,   457,   558,   618,   566,  -429,  -426,   477,
+     273,   653,   266,    98,   210,   545,   551,   274,   482,   479,
+       1,   216,   598,   213,   282,   650,    27,   658,   697,   211,
+     700,   456,  -498,   303,   512,   654,   211,    28,   621,   194,
+      16,  -426,   458,    16,    16,   200,     6,   222,   213,   584,
+     715,   212,   480,   213,   224,   368,     8,   224,   217,  -116,
+     213,   599,    70,   868,   651,   519,   659,   698,   213,   701,
+     708,   868,   533,   252,   369,   520,  -429,    21,   213,   521,
+     309,   320,   324,   324,   804,   636,    21,   483,    57,    58,
+     228,   228,   642,   691,   134,   586,   325,   325,   511,    58,
+     585,    58,    13,   653,    16,   491,   493,    57,   534,    16,
+     716,   496,   498,    16,   717,   511,   512,   466,     1,   559,
+      58,     9,   712,     1,   230,    57,   432,   654,     1,    58,
+       1,    58,   272,   692,   265,    71,   271,  -196,   278,  -450,
+     870,   281,    23,   281,     1,    58,  -450,   281,   281,   252,
+       1,    58,   567,  -498,  -498,   803,   275,   692,  -498,   363,
+    -497,  -275,  -497,   352,   451,  -275,    25,  -118,   231,  -275,
+     563,   364,    30,   803,  -497,   224,   452,  -498,  -498,   320,
+     320,   531,   524,   324,   236,   514,  -116,   402,  -196,   438,
+    -497,   441,   542,   228,   525,   546,   411,   325,    32,   595,
+     252,    33,  -497,  -196,   543,   555,   430,   645,   430,   604,
+     813,   596,   647,   607,   608,   609,   610,   611,    35,   646,
+     640,   526,   247,   678,   525,   527,   324,   213,   324,   528,
+     549,    36,   324,   622,   554,   679,   402,    37,   516,  -166,
+     325,  -466,   325,    53,   627,   256,   325,    38,  -466,   378,
+     213,   421,   324,    15,   213,   324,   213,   430,   324,    44,
+     512,   352,   352,   499,   500,    46,   325,   501,   874,   325,
+     523,   374,   325,  -274,  -498,   379,   207,  -274,  -287,   538,
+     320,   540,   568,    47,   281,   281,   713,   224,   714,    50,
+     281,   281,   207,  -287,  -287,    51,   690,    41,    42,    48,
+     537,    66,   537,   590,    71,   594,    57,    58,   670,    68,
+     224,    69,   274,   547,   228,   563,    70,   553,    63,    72,
+     430,    92,   677,   320,   552,   320,   869,    93,   430,   320,
+     201,    63,    89,   719,   202,    63,   224,   203,   430,    63,
+     371,   372,   430,   324,   469,   470,   612,   613,   204,   320,
+      89,   206,   320,   208,   192,   320,   324,   325,  -126,   213,
+     205,   711,   352,   438,   207,   438,   656,   657,   239,   629,
+     325,   430,   261,   563,   265,   209,   224,   242,   810,   271,
+     241,   245,   430,   278,   430,   246,  -115,    16,   253,   254,
+     257,   281,   258,   260,   353,   352,   818,   213,   354,   430,
+     359,   361,   360,   158,   196,   430,   238,   430,   362,   537,
+     311,   352,   619,   412,   365,   430,  -109,   366,   419,   324,
+     442,   447,   443,   445,   448,   449,   411,   453,  -500,   520,
+     450,   352,   461,   325,   352,   459,   468,   430,   460,   463,
+     320,   465,   475,   291,   292,   293,   294,   476,   295,   228,
+     296,   275,   682,   320,   227,   237,   324,   546,   478,   297,
+    -432,   487,   488,  -118,   244,   489,   494,   518,  -312,  -262,
      325,   324,   430,   558,   441,   411,   430,   430,   430,   430,
-     430,   529,   523,   532,   530,   325,   535,   536,   281,   251,
+     430,   529,   530,   532,   523,   325,   535,   536,   281,   251,
      810,   430,   539,   810,   430,   541,   544,   565,   557,   511,
      570,   639,   303,   572,   573,   574,   576,   644,   575,   255,
-     580,   601,   581,   605,    58,   634,   320,   417,   584,   420,
-     623,   429,   352,    64,   279,   614,   286,   615,   620,   635,
-     355,   286,   624,   641,   647,   430,    64,    90,   648,   665,
-      64,   661,   666,   667,    64,   668,   676,   671,  -127,   309,
-     672,   265,   675,   320,   673,    90,   680,   377,   704,   681,
-     401,   674,   685,   414,   415,   814,   686,   418,   320,   819,
-     688,   430,   429,   326,   705,   816,  -501,   817,   865,   444,
-     -11,   -10,   872,   821,   871,   430,   875,     7,   559,    58,
-     376,   866,   710,   663,   703,   444,   823,   820,   352,   214,
-     218,   375,   271,   281,   281,   215,   219,   630,   195,   631,
-     639,    64,   639,   720,   689,   464,   513,    31,   644,   722,
-      40,    94,    60,   721,   352,    91,    96,   706,   617,   238,
-      63,   358,   616,    24,    52,   352,   265,   669,    49,   582,
-     812,   352,     0,   429,   583,   485,   649,     0,   564,     0,
-     430,     0,     0,   429,     0,   486,     0,   429,     0,   352,
+     580,   581,   605,   601,    58,   634,   320,   417,   584,   420,
+     614,   429,   352,    64,   279,   615,   286,   620,   635,   641,
+     355,   286,   623,   624,   648,   430,    64,    90,   661,   665,
+      64,   666,   667,   668,    64,   671,   672,   673,   704,   309,
+    -127,   265,   674,   320,   675,    90,   680,   377,   676,   681,
+     401,   685,   814,   414,   415,   686,   688,   418,   320,   705,
+     816,   430,   429,   326,   817,  -501,   819,   872,   -11,   444,
+     -10,     7,   663,   821,   865,   430,   871,   875,   559,    58,
+     376,   866,   710,   703,   823,   444,   820,   630,   352,   214,
+     218,   375,   271,   281,   281,   215,   219,   195,   513,   631,
+     639,    64,   639,   721,   689,   464,    31,    40,   644,   722,
+      94,    60,    91,   720,   352,    96,   579,   606,   706,   238,
+      63,   617,   669,   616,   358,   352,   265,   812,    24,    52,
+      49,   352,   582,   429,   583,   485,     0,     0,   564,     0,
+     430,   649,     0,   429,     0,   486,     0,   429,     0,   352,
        0,     0,     0,     0,     0,     0,     0,   490,   492,     0,
        0,   326,   326,   495,   497,     0,     0,     0,   237,     0,
        0,     0,     0,   351,     0,     0,   429,     0,     0,     0,
@@ -11065,72 +11065,72 @@ namespace yy {
       31,    22,   312,    22,     4,     5,     6,     7,     4,     9,
       22,    11,   518,     4,   213,     4,     5,   709,    22,    64,
       20,    22,    50,    33,   307,    22,    24,   487,   213,     4,
-      24,    25,   476,   149,    34,     4,    54,    77,   112,   327,
-     206,    89,   122,    30,    50,   122,   122,   206,    77,   112,
-       9,    87,    50,   124,   211,   126,    51,    87,    50,    18,
-      50,    89,     4,    63,   450,   113,   102,   138,    50,    89,
-     150,   145,   102,   150,   150,    95,    50,   243,   126,    79,
-      29,   525,   145,    89,   243,    95,   123,   246,   124,   124,
-     126,    89,   137,   130,   124,   378,   126,    89,   126,    89,
-     673,   126,   412,   138,   114,   388,   146,    89,   126,   392,
-     110,   213,   311,   312,   806,    89,   141,   146,   149,   150,
-     140,   141,   125,   124,   111,   585,   311,   312,   149,   150,
-     130,   150,    75,    89,   137,   353,   354,   149,   421,   150,
-      89,   359,   360,     0,    93,   149,   532,   304,   149,   149,
-     150,   122,   149,   149,   150,   149,   258,   113,   149,   150,
-     149,   150,   149,   650,   203,   123,   205,    35,   207,   124,
-     862,   210,   130,   212,   149,   150,   133,   216,   217,   150,
+      24,    25,    35,    50,    34,     4,    54,    77,   112,   327,
+     206,    89,   122,    30,    87,   122,   122,   206,    77,   112,
+     149,    87,    50,   126,   211,    50,    59,    50,    50,   102,
+      50,    89,     4,    63,   450,   113,   102,    70,   141,    89,
+     150,   145,    89,   150,   150,    95,     0,   243,   126,    79,
+      29,   124,   145,   126,   243,    95,    51,   246,   124,   124,
+     126,    89,   137,   858,    89,   378,    89,    89,   126,    89,
+     673,   866,   412,   138,   114,   388,   146,     9,   126,   392,
+     110,   213,   311,   312,   806,   122,    18,   146,   149,   150,
+     140,   141,   138,   124,   111,   585,   311,   312,   149,   150,
+     130,   150,    16,    89,   150,   353,   354,   149,   421,   150,
+      89,   359,   360,   150,    93,   149,   532,   304,   149,   149,
+     150,   124,   149,   149,   150,   149,   258,   113,   149,   150,
+     149,   150,   149,   650,   203,   124,   205,   126,   207,   123,
+     862,   210,   133,   212,   149,   150,   130,   216,   217,   138,
      149,   150,   465,   125,   126,   691,   206,   674,   130,   125,
-     124,    59,   126,   213,   126,    24,    25,   124,   364,    28,
-     672,   137,    70,   709,   138,   364,   138,   149,   150,   311,
+     124,   137,   126,   213,   125,   141,    75,   124,   364,   145,
+     672,   137,   125,   709,   138,   364,   137,   149,   150,   311,
      312,   138,   125,   412,   364,   365,   124,   476,   126,   258,
-     125,   260,   138,   243,   137,   443,   246,   412,    16,   125,
-     138,   125,   137,   141,   150,   452,   256,   125,   258,   522,
-     700,   137,   140,   526,   527,   528,   529,   530,    56,   137,
-     572,   137,    60,   137,   126,   141,   455,   141,   457,   145,
-     445,   145,   461,   551,   449,   858,   525,   126,   370,   106,
-     455,   130,   457,   866,   562,   121,   461,    61,   121,   121,
-     126,   121,   481,   126,   126,   484,   126,   307,   487,   141,
-     676,   311,   312,   145,    17,    18,   481,   241,   871,   484,
-     106,   245,   487,   124,   125,   126,   124,   432,   126,   434,
-     412,   679,   469,   681,   353,   354,   106,   476,   149,   150,
-     359,   360,    24,    25,    44,    45,   648,    24,    25,     4,
-     432,   140,   434,   499,    71,   501,   125,   126,   621,   121,
-     499,   127,   501,   445,   364,   817,   133,   449,    53,    36,
-     370,    72,   635,   455,   816,   457,   862,   142,   378,   461,
-     137,    66,    67,   685,   142,    70,   525,   124,   388,    74,
-     592,   593,   392,   572,    56,   125,   142,   103,   103,   481,
-      85,   124,   484,    91,    89,   487,   585,   572,   124,    87,
-     124,   674,   412,   432,   103,   434,    69,    16,   138,   565,
-     585,   421,   620,   875,   443,   121,   565,   138,   691,   448,
-     124,   124,   432,   452,   434,   130,   138,   124,   124,   138,
-     150,   460,   126,    87,    87,   445,   709,    87,    87,   449,
-     124,   141,   124,    89,    90,   455,   141,   457,   138,   541,
-     141,   461,   544,   124,    22,   465,   141,   125,   137,   648,
-     126,   125,   132,   137,    87,   138,   476,   125,   137,   742,
-      58,   481,    13,   648,   484,    40,   138,   487,    40,   124,
-     572,   124,   137,     4,     5,     6,     7,    58,     9,   499,
-      11,   501,   639,   585,   140,   141,   685,   705,   123,    20,
-     130,   138,   124,   138,   150,   125,   145,   126,   125,   137,
+     126,   260,   125,   243,   137,   443,   246,   412,   126,   125,
+     138,   140,   138,   141,   137,   452,   256,   125,   258,   522,
+     700,   137,   125,   526,   527,   528,   529,   530,   106,   137,
+     572,   137,   121,   125,   137,   141,   455,   126,   457,   145,
+     445,   106,   461,   551,   449,   137,   525,   106,   370,    56,
+     455,   123,   457,    60,   562,   121,   461,    61,   130,   121,
+     126,   121,   481,     4,   126,   484,   126,   307,   487,   140,
+     676,   311,   312,    24,    25,    71,   481,    28,   871,   484,
+     126,   241,   487,   141,   130,   245,   124,   145,   126,   432,
+     412,   434,   469,   121,   353,   354,   679,   476,   681,   133,
+     359,   360,   124,   125,   126,    36,   648,    17,    18,   127,
+     432,    72,   434,   499,   124,   501,   149,   150,   621,   142,
+     499,   142,   501,   445,   364,   817,   137,   449,    53,    56,
+     370,   125,   635,   455,   816,   457,   862,   142,   378,   461,
+     103,    66,    67,   685,   103,    70,   525,   124,   388,    74,
+      24,    25,   392,   572,    44,    45,    24,    25,    91,   481,
+      85,    87,   484,    69,    89,   487,   585,   572,   125,   126,
+     124,   674,   412,   432,   124,   434,   592,   593,    16,   565,
+     585,   421,   620,   875,   443,   103,   565,   121,   691,   448,
+     138,   138,   432,   452,   434,   124,   124,   150,   130,   138,
+     138,   460,   124,   124,    87,   445,   709,   126,    87,   449,
+      87,   124,    87,    89,    90,   455,   141,   457,   138,   541,
+     124,   461,   544,   124,   141,   465,   141,   141,    22,   648,
+     125,   125,   137,   132,   137,   126,   476,    87,   138,   742,
+     138,   481,    58,   648,   484,   125,    13,   487,   137,    40,
+     572,    40,   124,     4,     5,     6,     7,   124,     9,   499,
+      11,   501,   639,   585,   140,   141,   685,   705,   137,    20,
+      58,   123,   130,   124,   150,   138,   125,   138,   126,   145,
      685,   700,   522,    34,   543,   525,   526,   527,   528,   529,
-     530,   137,   126,   138,   145,   700,   138,   138,   557,   175,
+     530,   137,   145,   138,   126,   700,   138,   138,   557,   175,
      803,   541,   125,   806,   544,   126,   126,   124,   137,   149,
      124,   570,    63,   137,   125,   137,   144,   576,   127,   195,
-     127,   129,   122,     4,   150,   565,   648,   252,    79,   254,
-     127,   256,   572,    53,   210,   125,   212,   125,   137,    40,
-     216,   217,   127,   122,   125,   585,    66,    67,   137,   127,
-      70,   120,   127,   127,    74,   127,   138,   137,   125,   110,
-     137,   620,   125,   685,   137,    85,   125,   243,   104,   137,
-     246,   141,   137,   249,   250,   124,   138,   253,   700,   125,
-     138,   621,   307,   213,   137,   137,   141,   137,   148,   265,
-     138,   138,   125,   137,   137,   635,   137,     3,   149,   150,
-     243,   856,   674,   596,   657,   281,   806,   803,   648,   786,
-     787,   242,   671,   672,   673,   786,   787,   565,    90,   565,
-     679,   141,   681,   686,   646,   301,   364,    18,   687,   688,
-      32,    74,    53,   687,   674,    70,    85,   671,   543,   364,
-     365,   217,   541,    11,    49,   685,   705,   620,    44,   481,
-     697,   691,    -1,   378,   484,   336,   585,    -1,   461,    -1,
-     700,    -1,    -1,   388,    -1,   341,    -1,   392,    -1,   709,
+     127,   122,     4,   129,   150,   565,   648,   252,    79,   254,
+     125,   256,   572,    53,   210,   125,   212,   137,    40,   122,
+     216,   217,   127,   127,   137,   585,    66,    67,   120,   127,
+      70,   127,   127,   127,    74,   137,   137,   137,   104,   110,
+     125,   620,   141,   685,   125,    85,   125,   243,   138,   137,
+     246,   137,   124,   249,   250,   138,   138,   253,   700,   137,
+     137,   621,   307,   213,   137,   141,   125,   125,   138,   265,
+     138,     3,   596,   137,   148,   635,   137,   137,   149,   150,
+     243,   856,   674,   657,   806,   281,   803,   565,   648,   786,
+     787,   242,   671,   672,   673,   786,   787,    90,   364,   565,
+     679,   141,   681,   687,   646,   301,    18,    32,   687,   688,
+      74,    53,    70,   686,   674,    85,   476,   525,   671,   364,
+     365,   543,   620,   541,   217,   685,   705,   697,    11,    49,
+      44,   691,   481,   378,   484,   336,    -1,    -1,   461,    -1,
+     700,   585,    -1,   388,    -1,   341,    -1,   392,    -1,   709,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,   353,   354,    -1,
       -1,   311,   312,   359,   360,    -1,    -1,    -1,   364,    -1,
       -1,    -1,    -1,   213,    -1,    -1,   421,    -1,    -1,    -1,
@@ -11629,7 +11629,7 @@ namespace yy {
      124,   362,   137,   125,   137,   127,   144,   222,   223,   256,
      127,   122,   340,   342,    79,   130,   349,   354,   356,   374,
      157,   263,   165,   263,   157,   125,   137,    24,    50,    89,
-     169,   129,   165,   125,   267,     4,   256,   267,   267,   267,
+     169,   129,   165,   125,   267,     4,   257,   267,   267,   267,
      267,   267,    24,    25,   125,   125,   311,   285,     4,   253,
      137,   141,   370,   127,   127,   122,   290,   370,   122,   157,
      197,   212,   220,   263,   375,    40,   122,   363,   364,   373,
-- 
2.43.0


From c3fb244cf41550810155171f478e654f21a56dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:36 +0000
Subject: [PATCH 52/53] fix: number extension additions after all root
 components when tagging automatically

---
 src/compiler/EncodeDecode.cpp                 |  21 +-
 src/compiler/Identifier.cpp                   |  15 +
 src/compiler/TypeAsString.cpp                 |   4 +-
 src/compiler/asn_compiler.yacc                |  18 +-
 src/compiler/autogen_copy/asn_compiler.hpp    | 650 +++++++++---------
 .../fast_ber/compiler/CompilerTypes.hpp       |   1 +
 .../include/fast_ber/compiler/Identifier.hpp  |   2 +
 7 files changed, 376 insertions(+), 335 deletions(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 0161698..a82a4f0 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -55,7 +55,8 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
         for (const ComponentType& component : collection.components)
         {
             block.add_line("res = " + component.named_type.name + "." +
-                           make_component_function("encode", component.named_type, automatic_tagging, i, module, tree) +
+                           make_component_function("encode", component.named_type, automatic_tagging,
+                                                   automatic_tag_number(collection, i), module, tree) +
                            "(content);");
             block.add_line("if (!res.success)");
             {
@@ -81,7 +82,8 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
         {
             block.add_line(
                 "content_length += this->" + component.named_type.name + "." +
-                make_component_function("encoded_length", component.named_type, automatic_tagging, i, module, tree) +
+                make_component_function("encoded_length", component.named_type, automatic_tagging,
+                                        automatic_tag_number(collection, i), module, tree) +
                 "();");
             ++i;
         }
@@ -244,10 +246,11 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                             std::size_t i      = 0;
                             for (const ComponentType& component : collection.components)
                             {
-                                block.add_line("case " + std::to_string(i) + ":");
+                                const std::size_t tag = automatic_tag_number(collection, i);
+                                block.add_line("case " + std::to_string(tag) + ":");
                                 block.add_line("res = this->" + component.named_type.name + "." +
                                                make_component_function("decode", component.named_type,
-                                                                       automatic_tagging, i, module, tree) +
+                                                                       automatic_tagging, tag, module, tree) +
                                                "(*iterator);");
                                 block.add_line("if (!res.success)");
                                 {
@@ -380,7 +383,9 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                     {
                         const std::vector<Identifier> ids =
                             automatic_tagging
-                                ? automatic_identifier(component.named_type.type, i, module, tree).outer_tags()
+                                ? automatic_identifier(component.named_type.type, automatic_tag_number(collection, i), module,
+                                                       tree)
+                                      .outer_tags()
                                 : outer_identifiers(component.named_type.type, module, tree);
 
                         std::string id_check = "if (iterator->is_valid() && (false ";
@@ -395,7 +400,7 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                             auto scope2 = CodeScope(block);
                             block.add_line("res = this->" + component.named_type.name + "." +
                                            make_component_function("decode", component.named_type, automatic_tagging,
-                                                                   i, module, tree) +
+                                                                   automatic_tag_number(collection, i), module, tree) +
                                            "(*iterator);");
 
                             block.add_line("if (!res.success)");
@@ -427,8 +432,8 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                     else
                     {
                         block.add_line("res = this->" + component.named_type.name + "." +
-                                       make_component_function("decode", component.named_type, automatic_tagging, i,
-                                                               module, tree) +
+                                       make_component_function("decode", component.named_type, automatic_tagging,
+                                                               automatic_tag_number(collection, i), module, tree) +
                                        "(*iterator);");
 
                         block.add_line("if (!res.success)");
diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index 0753e1a..a817d6a 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -30,6 +30,21 @@ bool is_automatically_tagged(const ChoiceType& choice, const Module& module)
                         [](const NamedType& named_type) { return is_prefixed(named_type.type); });
 }
 
+// The components of the extension root are numbered before any extension additions
+std::size_t automatic_tag_number(const Collection& collection, std::size_t component_index)
+{
+    const ComponentTypeList& components = collection.components;
+    const bool               addition   = components.at(component_index).is_extension_addition;
+
+    const auto preceding = std::count_if(
+        components.begin(), components.begin() + static_cast<std::ptrdiff_t>(component_index),
+        [addition](const ComponentType& component) { return component.is_extension_addition == addition; });
+    const auto root = std::count_if(components.begin(), components.end(), [](const ComponentType& component) {
+        return !component.is_extension_addition;
+    });
+    return static_cast<std::size_t>(addition ? root + preceding : preceding);
+}
+
 TaggingInfo automatic_identifier(const Type& type, std::size_t component_index, const Module& module,
                                  const Asn1Tree& tree)
 {
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 99e510e..4e39d15 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -74,7 +74,9 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
             if (is_automatically_tagged(collection, module))
             {
                 std::string id =
-                    automatic_identifier(component.named_type.type, component_index++, module, tree).name();
+                    automatic_identifier(component.named_type.type, automatic_tag_number(collection, component_index++),
+                                         module, tree)
+                        .name();
                 block.add_block(create_type_assignment(make_type_name(component.named_type.name, type_name),
                                                        component.named_type.type, module, tree, id, false));
             }
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 4aefa4a..71cfbbb 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -21,6 +21,14 @@
 
         Asn1Tree asn1_tree;
     };
+    static void add_extensions(ComponentTypeList& components, const ComponentTypeList& extensions)
+    {
+        for (ComponentType component : extensions)
+        {
+            component.is_extension_addition = true;
+            components.push_back(component);
+        }
+    }
     void yy::asn1_parser::error(const location_type& l, const std::string& m)
     {
         std::cerr << l << m << '\n';
@@ -1229,22 +1237,22 @@ ComponentTypeLists:
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList
     { $$.components = $1;
-      $$.components.insert($$.components.end(), $6.begin(), $6.end());
+      add_extensions($$.components, $6);
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS
     { $$.components = $1;
-      $$.components.insert($$.components.end(), $6.begin(), $6.end());
+      add_extensions($$.components, $6);
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS "," ComponentTypeList
     { $$.components = $1;
-      $$.components.insert($$.components.end(), $6.begin(), $6.end());
+      add_extensions($$.components, $6);
       $$.components.insert($$.components.end(), $10.begin(), $10.end());
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec "," ComponentTypeList
-    { $$.components = $4;
+    { add_extensions($$.components, $4);
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS
-    { $$.components = $4;
+    { add_extensions($$.components, $4);
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec
     { $$.components = {};
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 456856e..879adab 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -6748,6 +6748,14 @@ switch (yykind)
 
         Asn1Tree asn1_tree;
     };
+    static void add_extensions(ComponentTypeList& components, const ComponentTypeList& extensions)
+    {
+        for (ComponentType component : extensions)
+        {
+            component.is_extension_addition = true;
+            components.push_back(component);
+        }
+    }
     void yy::asn1_parser::error(const location_type& l, const std::string& m)
     {
         std::cerr << l << m << '\n';
@@ -9568,30 +9576,30 @@ namespace yy {
 
   case 317: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[5].value.as < ComponentTypeList > ();
-      yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
+      add_extensions(yylhs.value.as < Collection > ().components, yystack_[0].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
   case 318: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..."
     { yylhs.value.as < Collection > ().components = yystack_[7].value.as < ComponentTypeList > ();
-      yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[2].value.as < ComponentTypeList > ().begin(), yystack_[2].value.as < ComponentTypeList > ().end());
+      add_extensions(yylhs.value.as < Collection > ().components, yystack_[2].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
   case 319: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..." "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[9].value.as < ComponentTypeList > ();
-      yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[4].value.as < ComponentTypeList > ().begin(), yystack_[4].value.as < ComponentTypeList > ().end());
+      add_extensions(yylhs.value.as < Collection > ().components, yystack_[4].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
   case 320: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList
-    { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > ();
+    { add_extensions(yylhs.value.as < Collection > ().components, yystack_[0].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
   case 321: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList "," "..."
-    { yylhs.value.as < Collection > ().components = yystack_[2].value.as < ComponentTypeList > ();
+    { add_extensions(yylhs.value.as < Collection > ().components, yystack_[2].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
@@ -11897,64 +11905,64 @@ namespace yy {
   const short
   asn1_parser::yyrline_[] =
   {
-       0,   327,   327,   328,   331,   346,   349,   350,   351,   354,
-     357,   359,   363,   367,   369,   374,   378,   380,   384,   386,
-     388,   389,   390,   391,   394,   396,   404,   406,   410,   414,
-     416,   420,   421,   422,   425,   426,   427,   430,   434,   435,
-     436,   439,   442,   445,   446,   447,   450,   453,   454,   455,
-     458,   461,   462,   463,   469,   470,   473,   474,   477,   478,
-     481,   484,   487,   488,   489,   492,   493,   496,   497,   500,
-     506,   507,   512,   513,   516,   519,   522,   525,   526,   529,
-     530,   533,   534,   538,   539,   542,   545,   549,   552,   553,
-     554,   555,   556,   565,   567,   574,   576,   578,   580,   587,
-     591,   595,   599,   611,   615,   617,   621,   623,   627,   629,
-     633,   635,   651,   663,   672,   680,   681,   685,   686,   689,
-     690,   691,   694,   699,   700,   701,   702,   703,   704,   705,
-     708,   710,   714,   715,   718,   719,   722,   723,   726,   727,
-     730,   731,   732,   743,   751,   758,   759,   760,   763,   766,
-     770,   771,   775,   776,   777,   780,   783,   787,   788,   791,
-     793,   795,   797,   801,   802,   805,   807,   811,   812,   813,
-     816,   817,   820,   822,   825,   827,   830,   832,   836,   852,
-     854,   860,   862,   866,   870,   872,   874,   883,   885,   889,
-     891,   893,   895,   898,   900,   904,   906,   908,   914,   916,
-     919,   923,   926,   928,   932,   934,   937,   947,   951,   976,
-     980,   984,   988,   990,   992,   994,   996,  1001,  1002,  1003,
-    1004,  1005,  1006,  1007,  1008,  1009,  1010,  1011,  1012,  1013,
-    1014,  1015,  1016,  1017,  1018,  1019,  1020,  1021,  1022,  1023,
-    1024,  1025,  1026,  1027,  1028,  1029,  1030,  1031,  1034,  1038,
-    1040,  1042,  1044,  1046,  1048,  1050,  1052,  1054,  1056,  1058,
-    1059,  1061,  1063,  1065,  1069,  1070,  1071,  1072,  1073,  1075,
-    1077,  1079,  1081,  1083,  1088,  1090,  1092,  1095,  1096,  1099,
-    1100,  1103,  1106,  1108,  1116,  1119,  1121,  1125,  1127,  1131,
-    1133,  1137,  1139,  1143,  1145,  1149,  1153,  1157,  1161,  1166,
-    1169,  1171,  1175,  1177,  1185,  1188,  1190,  1194,  1195,  1198,
-    1199,  1213,  1216,  1219,  1221,  1225,  1227,  1230,  1234,  1238,
-    1243,  1246,  1249,  1252,  1257,  1259,  1263,  1266,  1269,  1272,
-    1274,  1276,  1278,  1290,  1292,  1296,  1298,  1302,  1304,  1308,
-    1312,  1316,  1318,  1320,  1324,  1326,  1333,  1336,  1340,  1342,
-    1344,  1348,  1352,  1353,  1356,  1358,  1361,  1363,  1365,  1367,
-    1377,  1380,  1382,  1386,  1388,  1392,  1394,  1396,  1400,  1404,
-    1406,  1409,  1413,  1425,  1428,  1434,  1437,  1438,  1441,  1442,
-    1445,  1451,  1458,  1464,  1467,  1470,  1473,  1476,  1479,  1482,
-    1484,  1488,  1490,  1492,  1494,  1496,  1498,  1500,  1502,  1504,
-    1506,  1508,  1510,  1512,  1516,  1520,  1522,  1526,  1528,  1530,
-    1532,  1534,  1536,  1538,  1540,  1544,  1548,  1549,  1552,  1555,
-    1556,  1557,  1560,  1561,  1564,  1565,  1568,  1571,  1572,  1575,
-    1578,  1579,  1582,  1585,  1588,  1589,  1592,  1593,  1596,  1598,
-    1601,  1602,  1603,  1604,  1605,  1606,  1607,  1608,  1609,  1615,
-    1618,  1620,  1622,  1624,  1626,  1628,  1630,  1632,  1634,  1638,
-    1641,  1644,  1647,  1648,  1651,  1652,  1655,  1656,  1659,  1660,
-    1663,  1666,  1669,  1672,  1673,  1676,  1678,  1679,  1680,  1681,
-    1684,  1685,  1688,  1691,  1694,  1695,  1698,  1699,  1700,  1701,
-    1704,  1707,  1710,  1711,  1714,  1715,  1716,  1719,  1723,  1727,
-    1731,  1735,  1739,  1740,  1741,  1742,  1743,  1744,  1745,  1746,
-    1747,  1748,  1749,  1750,  1751,  1752,  1753,  1754,  1755,  1756,
-    1757,  1758,  1759,  1760,  1761,  1762,  1763,  1764,  1765,  1766,
-    1767,  1768,  1769,  1770,  1771,  1772,  1773,  1774,  1775,  1776,
-    1777,  1778,  1779,  1780,  1781,  1782,  1783,  1784,  1785,  1786,
-    1787,  1788,  1789,  1790,  1791,  1792,  1793,  1794,  1795,  1796,
-    1797,  1798,  1799,  1800,  1801,  1802,  1803,  1804,  1805,  1806,
-    1807,  1808,  1809,  1810,  1811,  1812,  1813,  1814,  1815
+       0,   335,   335,   336,   339,   354,   357,   358,   359,   362,
+     365,   367,   371,   375,   377,   382,   386,   388,   392,   394,
+     396,   397,   398,   399,   402,   404,   412,   414,   418,   422,
+     424,   428,   429,   430,   433,   434,   435,   438,   442,   443,
+     444,   447,   450,   453,   454,   455,   458,   461,   462,   463,
+     466,   469,   470,   471,   477,   478,   481,   482,   485,   486,
+     489,   492,   495,   496,   497,   500,   501,   504,   505,   508,
+     514,   515,   520,   521,   524,   527,   530,   533,   534,   537,
+     538,   541,   542,   546,   547,   550,   553,   557,   560,   561,
+     562,   563,   564,   573,   575,   582,   584,   586,   588,   595,
+     599,   603,   607,   619,   623,   625,   629,   631,   635,   637,
+     641,   643,   659,   671,   680,   688,   689,   693,   694,   697,
+     698,   699,   702,   707,   708,   709,   710,   711,   712,   713,
+     716,   718,   722,   723,   726,   727,   730,   731,   734,   735,
+     738,   739,   740,   751,   759,   766,   767,   768,   771,   774,
+     778,   779,   783,   784,   785,   788,   791,   795,   796,   799,
+     801,   803,   805,   809,   810,   813,   815,   819,   820,   821,
+     824,   825,   828,   830,   833,   835,   838,   840,   844,   860,
+     862,   868,   870,   874,   878,   880,   882,   891,   893,   897,
+     899,   901,   903,   906,   908,   912,   914,   916,   922,   924,
+     927,   931,   934,   936,   940,   942,   945,   955,   959,   984,
+     988,   992,   996,   998,  1000,  1002,  1004,  1009,  1010,  1011,
+    1012,  1013,  1014,  1015,  1016,  1017,  1018,  1019,  1020,  1021,
+    1022,  1023,  1024,  1025,  1026,  1027,  1028,  1029,  1030,  1031,
+    1032,  1033,  1034,  1035,  1036,  1037,  1038,  1039,  1042,  1046,
+    1048,  1050,  1052,  1054,  1056,  1058,  1060,  1062,  1064,  1066,
+    1067,  1069,  1071,  1073,  1077,  1078,  1079,  1080,  1081,  1083,
+    1085,  1087,  1089,  1091,  1096,  1098,  1100,  1103,  1104,  1107,
+    1108,  1111,  1114,  1116,  1124,  1127,  1129,  1133,  1135,  1139,
+    1141,  1145,  1147,  1151,  1153,  1157,  1161,  1165,  1169,  1174,
+    1177,  1179,  1183,  1185,  1193,  1196,  1198,  1202,  1203,  1206,
+    1207,  1221,  1224,  1227,  1229,  1233,  1235,  1238,  1242,  1246,
+    1251,  1254,  1257,  1260,  1265,  1267,  1271,  1274,  1277,  1280,
+    1282,  1284,  1286,  1298,  1300,  1304,  1306,  1310,  1312,  1316,
+    1320,  1324,  1326,  1328,  1332,  1334,  1341,  1344,  1348,  1350,
+    1352,  1356,  1360,  1361,  1364,  1366,  1369,  1371,  1373,  1375,
+    1385,  1388,  1390,  1394,  1396,  1400,  1402,  1404,  1408,  1412,
+    1414,  1417,  1421,  1433,  1436,  1442,  1445,  1446,  1449,  1450,
+    1453,  1459,  1466,  1472,  1475,  1478,  1481,  1484,  1487,  1490,
+    1492,  1496,  1498,  1500,  1502,  1504,  1506,  1508,  1510,  1512,
+    1514,  1516,  1518,  1520,  1524,  1528,  1530,  1534,  1536,  1538,
+    1540,  1542,  1544,  1546,  1548,  1552,  1556,  1557,  1560,  1563,
+    1564,  1565,  1568,  1569,  1572,  1573,  1576,  1579,  1580,  1583,
+    1586,  1587,  1590,  1593,  1596,  1597,  1600,  1601,  1604,  1606,
+    1609,  1610,  1611,  1612,  1613,  1614,  1615,  1616,  1617,  1623,
+    1626,  1628,  1630,  1632,  1634,  1636,  1638,  1640,  1642,  1646,
+    1649,  1652,  1655,  1656,  1659,  1660,  1663,  1664,  1667,  1668,
+    1671,  1674,  1677,  1680,  1681,  1684,  1686,  1687,  1688,  1689,
+    1692,  1693,  1696,  1699,  1702,  1703,  1706,  1707,  1708,  1709,
+    1712,  1715,  1718,  1719,  1722,  1723,  1724,  1727,  1731,  1735,
+    1739,  1743,  1747,  1748,  1749,  1750,  1751,  1752,  1753,  1754,
+    1755,  1756,  1757,  1758,  1759,  1760,  1761,  1762,  1763,  1764,
+    1765,  1766,  1767,  1768,  1769,  1770,  1771,  1772,  1773,  1774,
+    1775,  1776,  1777,  1778,  1779,  1780,  1781,  1782,  1783,  1784,
+    1785,  1786,  1787,  1788,  1789,  1790,  1791,  1792,  1793,  1794,
+    1795,  1796,  1797,  1798,  1799,  1800,  1801,  1802,  1803,  1804,
+    1805,  1806,  1807,  1808,  1809,  1810,  1811,  1812,  1813,  1814,
+    1815,  1816,  1817,  1818,  1819,  1820,  1821,  1822,  1823
   };
 
   void
@@ -12002,7 +12010,7 @@ namespace yy {
         context_.location.step();
         // Lexer
 
-#line 12006 "asn_compiler.hpp"
+#line 12014 "asn_compiler.hpp"
 {
 	unsigned char yych;
 	unsigned int yyaccept = 0;
@@ -12102,25 +12110,25 @@ namespace yy {
 	}
 yy1:
 	++context_.cursor;
-#line 1954 "src/compiler/asn_compiler.yacc"
+#line 1962 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
-#line 12108 "asn_compiler.hpp"
+#line 12116 "asn_compiler.hpp"
 yy2:
 	++context_.cursor;
 yy3:
-#line 1980 "src/compiler/asn_compiler.yacc"
+#line 1988 "src/compiler/asn_compiler.yacc"
 	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
-#line 12114 "asn_compiler.hpp"
+#line 12122 "asn_compiler.hpp"
 yy4:
 	++context_.cursor;
-#line 1958 "src/compiler/asn_compiler.yacc"
+#line 1966 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.columns(); continue; }
-#line 12119 "asn_compiler.hpp"
+#line 12127 "asn_compiler.hpp"
 yy5:
 	++context_.cursor;
-#line 1957 "src/compiler/asn_compiler.yacc"
+#line 1965 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); context_.location.lines();   continue; }
-#line 12124 "asn_compiler.hpp"
+#line 12132 "asn_compiler.hpp"
 yy6:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12129,9 +12137,9 @@ yy6:
 	}
 yy7:
 	++context_.cursor;
-#line 1976 "src/compiler/asn_compiler.yacc"
+#line 1984 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCLAMATION_MARK (context_.location); }
-#line 12135 "asn_compiler.hpp"
+#line 12143 "asn_compiler.hpp"
 yy8:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12225,19 +12233,19 @@ yy10:
 	}
 yy11:
 	++context_.cursor;
-#line 1966 "src/compiler/asn_compiler.yacc"
+#line 1974 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-#line 12231 "asn_compiler.hpp"
+#line 12239 "asn_compiler.hpp"
 yy12:
 	++context_.cursor;
-#line 1967 "src/compiler/asn_compiler.yacc"
+#line 1975 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-#line 12236 "asn_compiler.hpp"
+#line 12244 "asn_compiler.hpp"
 yy13:
 	++context_.cursor;
-#line 1972 "src/compiler/asn_compiler.yacc"
+#line 1980 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-#line 12241 "asn_compiler.hpp"
+#line 12249 "asn_compiler.hpp"
 yy14:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12255,9 +12263,9 @@ yy14:
 		default: goto yy15;
 	}
 yy15:
-#line 1973 "src/compiler/asn_compiler.yacc"
+#line 1981 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
-#line 12261 "asn_compiler.hpp"
+#line 12269 "asn_compiler.hpp"
 yy16:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12265,9 +12273,9 @@ yy16:
 		default: goto yy17;
 	}
 yy17:
-#line 1974 "src/compiler/asn_compiler.yacc"
+#line 1982 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
-#line 12271 "asn_compiler.hpp"
+#line 12279 "asn_compiler.hpp"
 yy18:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12293,9 +12301,9 @@ yy19:
 		default: goto yy20;
 	}
 yy20:
-#line 1940 "src/compiler/asn_compiler.yacc"
+#line 1948 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 12299 "asn_compiler.hpp"
+#line 12307 "asn_compiler.hpp"
 yy21:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12304,24 +12312,24 @@ yy21:
 		default: goto yy22;
 	}
 yy22:
-#line 1970 "src/compiler/asn_compiler.yacc"
+#line 1978 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
-#line 12310 "asn_compiler.hpp"
+#line 12318 "asn_compiler.hpp"
 yy23:
 	++context_.cursor;
-#line 1971 "src/compiler/asn_compiler.yacc"
+#line 1979 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-#line 12315 "asn_compiler.hpp"
+#line 12323 "asn_compiler.hpp"
 yy24:
 	++context_.cursor;
-#line 1977 "src/compiler/asn_compiler.yacc"
+#line 1985 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-#line 12320 "asn_compiler.hpp"
+#line 12328 "asn_compiler.hpp"
 yy25:
 	++context_.cursor;
-#line 1979 "src/compiler/asn_compiler.yacc"
+#line 1987 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-#line 12325 "asn_compiler.hpp"
+#line 12333 "asn_compiler.hpp"
 yy26:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12334,9 +12342,9 @@ yy26:
 		default: goto yy35;
 	}
 yy27:
-#line 1948 "src/compiler/asn_compiler.yacc"
+#line 1956 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12340 "asn_compiler.hpp"
+#line 12348 "asn_compiler.hpp"
 yy28:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12567,19 +12575,19 @@ yy46:
 	}
 yy47:
 	++context_.cursor;
-#line 1968 "src/compiler/asn_compiler.yacc"
+#line 1976 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-#line 12573 "asn_compiler.hpp"
+#line 12581 "asn_compiler.hpp"
 yy48:
 	++context_.cursor;
-#line 1969 "src/compiler/asn_compiler.yacc"
+#line 1977 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-#line 12578 "asn_compiler.hpp"
+#line 12586 "asn_compiler.hpp"
 yy49:
 	++context_.cursor;
-#line 1978 "src/compiler/asn_compiler.yacc"
+#line 1986 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-#line 12583 "asn_compiler.hpp"
+#line 12591 "asn_compiler.hpp"
 yy50:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12651,24 +12659,24 @@ yy50:
 		default: goto yy51;
 	}
 yy51:
-#line 1949 "src/compiler/asn_compiler.yacc"
+#line 1957 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12657 "asn_compiler.hpp"
+#line 12665 "asn_compiler.hpp"
 yy52:
 	++context_.cursor;
-#line 1964 "src/compiler/asn_compiler.yacc"
+#line 1972 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-#line 12662 "asn_compiler.hpp"
+#line 12670 "asn_compiler.hpp"
 yy53:
 	++context_.cursor;
-#line 1975 "src/compiler/asn_compiler.yacc"
+#line 1983 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-#line 12667 "asn_compiler.hpp"
+#line 12675 "asn_compiler.hpp"
 yy54:
 	++context_.cursor;
-#line 1965 "src/compiler/asn_compiler.yacc"
+#line 1973 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-#line 12672 "asn_compiler.hpp"
+#line 12680 "asn_compiler.hpp"
 yy55:
 	yych = *++context_.cursor;
 yy56:
@@ -12789,9 +12797,9 @@ yy58:
 		default: goto yy59;
 	}
 yy59:
-#line 1943 "src/compiler/asn_compiler.yacc"
+#line 1951 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-#line 12795 "asn_compiler.hpp"
+#line 12803 "asn_compiler.hpp"
 yy60:
 	yyaccept = 6;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12863,9 +12871,9 @@ yy60:
 		default: goto yy61;
 	}
 yy61:
-#line 1950 "src/compiler/asn_compiler.yacc"
+#line 1958 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12869 "asn_compiler.hpp"
+#line 12877 "asn_compiler.hpp"
 yy62:
 	yyaccept = 7;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -12937,9 +12945,9 @@ yy62:
 		default: goto yy63;
 	}
 yy63:
-#line 1951 "src/compiler/asn_compiler.yacc"
+#line 1959 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12943 "asn_compiler.hpp"
+#line 12951 "asn_compiler.hpp"
 yy64:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13014,9 +13022,9 @@ yy68:
 		default: goto yy68;
 	}
 yy69:
-#line 1934 "src/compiler/asn_compiler.yacc"
+#line 1942 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); continue; }
-#line 13020 "asn_compiler.hpp"
+#line 13028 "asn_compiler.hpp"
 yy70:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13033,9 +13041,9 @@ yy70:
 		default: goto yy71;
 	}
 yy71:
-#line 1941 "src/compiler/asn_compiler.yacc"
+#line 1949 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 13039 "asn_compiler.hpp"
+#line 13047 "asn_compiler.hpp"
 yy72:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13043,9 +13051,9 @@ yy72:
 		default: goto yy73;
 	}
 yy73:
-#line 1963 "src/compiler/asn_compiler.yacc"
+#line 1971 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-#line 13049 "asn_compiler.hpp"
+#line 13057 "asn_compiler.hpp"
 yy74:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13276,9 +13284,9 @@ yy87:
 		default: goto yy88;
 	}
 yy88:
-#line 1847 "src/compiler/asn_compiler.yacc"
+#line 1855 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-#line 13282 "asn_compiler.hpp"
+#line 13290 "asn_compiler.hpp"
 yy89:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -13533,9 +13541,9 @@ yy114:
 		default: goto yy115;
 	}
 yy115:
-#line 1895 "src/compiler/asn_compiler.yacc"
+#line 1903 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-#line 13539 "asn_compiler.hpp"
+#line 13547 "asn_compiler.hpp"
 yy116:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -13915,14 +13923,14 @@ yy142:
 	}
 yy143:
 	++context_.cursor;
-#line 1945 "src/compiler/asn_compiler.yacc"
+#line 1953 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13921 "asn_compiler.hpp"
+#line 13929 "asn_compiler.hpp"
 yy144:
 	++context_.cursor;
-#line 1947 "src/compiler/asn_compiler.yacc"
+#line 1955 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13926 "asn_compiler.hpp"
+#line 13934 "asn_compiler.hpp"
 yy145:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13940,9 +13948,9 @@ yy146:
 	}
 yy147:
 	++context_.cursor;
-#line 1962 "src/compiler/asn_compiler.yacc"
+#line 1970 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-#line 13946 "asn_compiler.hpp"
+#line 13954 "asn_compiler.hpp"
 yy148:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -13967,14 +13975,14 @@ yy149:
 		default: goto yy150;
 	}
 yy150:
-#line 1939 "src/compiler/asn_compiler.yacc"
+#line 1947 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-#line 13973 "asn_compiler.hpp"
+#line 13981 "asn_compiler.hpp"
 yy151:
 	++context_.cursor;
-#line 1961 "src/compiler/asn_compiler.yacc"
+#line 1969 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-#line 13978 "asn_compiler.hpp"
+#line 13986 "asn_compiler.hpp"
 yy152:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14054,9 +14062,9 @@ yy153:
 		default: goto yy154;
 	}
 yy154:
-#line 1839 "src/compiler/asn_compiler.yacc"
+#line 1847 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-#line 14060 "asn_compiler.hpp"
+#line 14068 "asn_compiler.hpp"
 yy155:
 	yyaccept = 11;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14128,9 +14136,9 @@ yy155:
 		default: goto yy156;
 	}
 yy156:
-#line 1840 "src/compiler/asn_compiler.yacc"
+#line 1848 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-#line 14134 "asn_compiler.hpp"
+#line 14142 "asn_compiler.hpp"
 yy157:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14223,9 +14231,9 @@ yy160:
 		default: goto yy161;
 	}
 yy161:
-#line 1844 "src/compiler/asn_compiler.yacc"
+#line 1852 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-#line 14229 "asn_compiler.hpp"
+#line 14237 "asn_compiler.hpp"
 yy162:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14383,9 +14391,9 @@ yy174:
 		default: goto yy175;
 	}
 yy175:
-#line 1863 "src/compiler/asn_compiler.yacc"
+#line 1871 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-#line 14389 "asn_compiler.hpp"
+#line 14397 "asn_compiler.hpp"
 yy176:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14564,9 +14572,9 @@ yy191:
 		default: goto yy192;
 	}
 yy192:
-#line 1886 "src/compiler/asn_compiler.yacc"
+#line 1894 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-#line 14570 "asn_compiler.hpp"
+#line 14578 "asn_compiler.hpp"
 yy193:
 	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14638,9 +14646,9 @@ yy193:
 		default: goto yy194;
 	}
 yy194:
-#line 1887 "src/compiler/asn_compiler.yacc"
+#line 1895 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-#line 14644 "asn_compiler.hpp"
+#line 14652 "asn_compiler.hpp"
 yy195:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14775,9 +14783,9 @@ yy204:
 		default: goto yy205;
 	}
 yy205:
-#line 1899 "src/compiler/asn_compiler.yacc"
+#line 1907 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-#line 14781 "asn_compiler.hpp"
+#line 14789 "asn_compiler.hpp"
 yy206:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -14898,9 +14906,9 @@ yy213:
 		default: goto yy214;
 	}
 yy214:
-#line 1908 "src/compiler/asn_compiler.yacc"
+#line 1916 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-#line 14904 "asn_compiler.hpp"
+#line 14912 "asn_compiler.hpp"
 yy215:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15017,14 +15025,14 @@ yy230:
 	}
 yy231:
 	++context_.cursor;
-#line 1932 "src/compiler/asn_compiler.yacc"
+#line 1940 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); continue; }
-#line 15023 "asn_compiler.hpp"
+#line 15031 "asn_compiler.hpp"
 yy232:
 	++context_.cursor;
-#line 1936 "src/compiler/asn_compiler.yacc"
+#line 1944 "src/compiler/asn_compiler.yacc"
 	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
-#line 15028 "asn_compiler.hpp"
+#line 15036 "asn_compiler.hpp"
 yy233:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15187,9 +15195,9 @@ yy246:
 		default: goto yy247;
 	}
 yy247:
-#line 1855 "src/compiler/asn_compiler.yacc"
+#line 1863 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-#line 15193 "asn_compiler.hpp"
+#line 15201 "asn_compiler.hpp"
 yy248:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15339,9 +15347,9 @@ yy259:
 		default: goto yy260;
 	}
 yy260:
-#line 1871 "src/compiler/asn_compiler.yacc"
+#line 1879 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-#line 15345 "asn_compiler.hpp"
+#line 15353 "asn_compiler.hpp"
 yy261:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15560,9 +15568,9 @@ yy273:
 		default: goto yy274;
 	}
 yy274:
-#line 1890 "src/compiler/asn_compiler.yacc"
+#line 1898 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-#line 15566 "asn_compiler.hpp"
+#line 15574 "asn_compiler.hpp"
 yy275:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15772,9 +15780,9 @@ yy286:
 		default: goto yy287;
 	}
 yy287:
-#line 1904 "src/compiler/asn_compiler.yacc"
+#line 1912 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-#line 15778 "asn_compiler.hpp"
+#line 15786 "asn_compiler.hpp"
 yy288:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15867,9 +15875,9 @@ yy291:
 		default: goto yy292;
 	}
 yy292:
-#line 1910 "src/compiler/asn_compiler.yacc"
+#line 1918 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-#line 15873 "asn_compiler.hpp"
+#line 15881 "asn_compiler.hpp"
 yy293:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -15962,9 +15970,9 @@ yy296:
 		default: goto yy297;
 	}
 yy297:
-#line 1914 "src/compiler/asn_compiler.yacc"
+#line 1922 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-#line 15968 "asn_compiler.hpp"
+#line 15976 "asn_compiler.hpp"
 yy298:
 	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16036,9 +16044,9 @@ yy298:
 		default: goto yy299;
 	}
 yy299:
-#line 1916 "src/compiler/asn_compiler.yacc"
+#line 1924 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-#line 16042 "asn_compiler.hpp"
+#line 16050 "asn_compiler.hpp"
 yy300:
 	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16110,9 +16118,9 @@ yy300:
 		default: goto yy301;
 	}
 yy301:
-#line 1918 "src/compiler/asn_compiler.yacc"
+#line 1926 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-#line 16116 "asn_compiler.hpp"
+#line 16124 "asn_compiler.hpp"
 yy302:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16254,9 +16262,9 @@ yy312:
 		default: goto yy313;
 	}
 yy313:
-#line 1928 "src/compiler/asn_compiler.yacc"
+#line 1936 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-#line 16260 "asn_compiler.hpp"
+#line 16268 "asn_compiler.hpp"
 yy314:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16356,9 +16364,9 @@ yy318:
 		default: goto yy319;
 	}
 yy319:
-#line 1843 "src/compiler/asn_compiler.yacc"
+#line 1851 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-#line 16362 "asn_compiler.hpp"
+#line 16370 "asn_compiler.hpp"
 yy320:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16458,9 +16466,9 @@ yy324:
 		default: goto yy325;
 	}
 yy325:
-#line 1850 "src/compiler/asn_compiler.yacc"
+#line 1858 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-#line 16464 "asn_compiler.hpp"
+#line 16472 "asn_compiler.hpp"
 yy326:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16699,9 +16707,9 @@ yy341:
 		default: goto yy342;
 	}
 yy342:
-#line 1870 "src/compiler/asn_compiler.yacc"
+#line 1878 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-#line 16705 "asn_compiler.hpp"
+#line 16713 "asn_compiler.hpp"
 yy343:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -16886,9 +16894,9 @@ yy359:
 		default: goto yy360;
 	}
 yy360:
-#line 1894 "src/compiler/asn_compiler.yacc"
+#line 1902 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-#line 16892 "asn_compiler.hpp"
+#line 16900 "asn_compiler.hpp"
 yy361:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17262,9 +17270,9 @@ yy378:
 		default: goto yy379;
 	}
 yy379:
-#line 1920 "src/compiler/asn_compiler.yacc"
+#line 1928 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-#line 17268 "asn_compiler.hpp"
+#line 17276 "asn_compiler.hpp"
 yy380:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17385,9 +17393,9 @@ yy387:
 		default: goto yy388;
 	}
 yy388:
-#line 1837 "src/compiler/asn_compiler.yacc"
+#line 1845 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-#line 17391 "asn_compiler.hpp"
+#line 17399 "asn_compiler.hpp"
 yy389:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17501,9 +17509,9 @@ yy395:
 		default: goto yy396;
 	}
 yy396:
-#line 1849 "src/compiler/asn_compiler.yacc"
+#line 1857 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-#line 17507 "asn_compiler.hpp"
+#line 17515 "asn_compiler.hpp"
 yy397:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17652,9 +17660,9 @@ yy408:
 		default: goto yy409;
 	}
 yy409:
-#line 1865 "src/compiler/asn_compiler.yacc"
+#line 1873 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-#line 17658 "asn_compiler.hpp"
+#line 17666 "asn_compiler.hpp"
 yy410:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -17988,9 +17996,9 @@ yy430:
 		default: goto yy431;
 	}
 yy431:
-#line 1892 "src/compiler/asn_compiler.yacc"
+#line 1900 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-#line 17994 "asn_compiler.hpp"
+#line 18002 "asn_compiler.hpp"
 yy432:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18139,9 +18147,9 @@ yy443:
 		default: goto yy444;
 	}
 yy444:
-#line 1911 "src/compiler/asn_compiler.yacc"
+#line 1919 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-#line 18145 "asn_compiler.hpp"
+#line 18153 "asn_compiler.hpp"
 yy445:
 	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18213,9 +18221,9 @@ yy445:
 		default: goto yy446;
 	}
 yy446:
-#line 1912 "src/compiler/asn_compiler.yacc"
+#line 1920 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-#line 18219 "asn_compiler.hpp"
+#line 18227 "asn_compiler.hpp"
 yy447:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18315,9 +18323,9 @@ yy451:
 		default: goto yy452;
 	}
 yy452:
-#line 1921 "src/compiler/asn_compiler.yacc"
+#line 1929 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-#line 18321 "asn_compiler.hpp"
+#line 18329 "asn_compiler.hpp"
 yy453:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18459,9 +18467,9 @@ yy463:
 		default: goto yy464;
 	}
 yy464:
-#line 1846 "src/compiler/asn_compiler.yacc"
+#line 1854 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-#line 18465 "asn_compiler.hpp"
+#line 18473 "asn_compiler.hpp"
 yy465:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18568,9 +18576,9 @@ yy470:
 		default: goto yy471;
 	}
 yy471:
-#line 1857 "src/compiler/asn_compiler.yacc"
+#line 1865 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-#line 18574 "asn_compiler.hpp"
+#line 18582 "asn_compiler.hpp"
 yy472:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18663,9 +18671,9 @@ yy475:
 		default: goto yy476;
 	}
 yy476:
-#line 1861 "src/compiler/asn_compiler.yacc"
+#line 1869 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-#line 18669 "asn_compiler.hpp"
+#line 18677 "asn_compiler.hpp"
 yy477:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18758,9 +18766,9 @@ yy480:
 		default: goto yy481;
 	}
 yy481:
-#line 1867 "src/compiler/asn_compiler.yacc"
+#line 1875 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-#line 18764 "asn_compiler.hpp"
+#line 18772 "asn_compiler.hpp"
 yy482:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18882,9 +18890,9 @@ yy489:
 		default: goto yy490;
 	}
 yy490:
-#line 1878 "src/compiler/asn_compiler.yacc"
+#line 1886 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-#line 18888 "asn_compiler.hpp"
+#line 18896 "asn_compiler.hpp"
 yy491:
 	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -18956,9 +18964,9 @@ yy491:
 		default: goto yy492;
 	}
 yy492:
-#line 1879 "src/compiler/asn_compiler.yacc"
+#line 1887 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-#line 18962 "asn_compiler.hpp"
+#line 18970 "asn_compiler.hpp"
 yy493:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19051,9 +19059,9 @@ yy496:
 		default: goto yy497;
 	}
 yy497:
-#line 1883 "src/compiler/asn_compiler.yacc"
+#line 1891 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-#line 19057 "asn_compiler.hpp"
+#line 19065 "asn_compiler.hpp"
 yy498:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19160,9 +19168,9 @@ yy503:
 		default: goto yy504;
 	}
 yy504:
-#line 1896 "src/compiler/asn_compiler.yacc"
+#line 1904 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-#line 19166 "asn_compiler.hpp"
+#line 19174 "asn_compiler.hpp"
 yy505:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19248,9 +19256,9 @@ yy507:
 		default: goto yy508;
 	}
 yy508:
-#line 1898 "src/compiler/asn_compiler.yacc"
+#line 1906 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-#line 19254 "asn_compiler.hpp"
+#line 19262 "asn_compiler.hpp"
 yy509:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19329,9 +19337,9 @@ yy510:
 		default: goto yy511;
 	}
 yy511:
-#line 1901 "src/compiler/asn_compiler.yacc"
+#line 1909 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-#line 19335 "asn_compiler.hpp"
+#line 19343 "asn_compiler.hpp"
 yy512:
 	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19403,9 +19411,9 @@ yy512:
 		default: goto yy513;
 	}
 yy513:
-#line 1903 "src/compiler/asn_compiler.yacc"
+#line 1911 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-#line 19409 "asn_compiler.hpp"
+#line 19417 "asn_compiler.hpp"
 yy514:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19540,9 +19548,9 @@ yy523:
 		default: goto yy524;
 	}
 yy524:
-#line 1924 "src/compiler/asn_compiler.yacc"
+#line 1932 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-#line 19546 "asn_compiler.hpp"
+#line 19554 "asn_compiler.hpp"
 yy525:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19712,9 +19720,9 @@ yy539:
 		default: goto yy540;
 	}
 yy540:
-#line 1859 "src/compiler/asn_compiler.yacc"
+#line 1867 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-#line 19718 "asn_compiler.hpp"
+#line 19726 "asn_compiler.hpp"
 yy541:
 	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19786,9 +19794,9 @@ yy541:
 		default: goto yy542;
 	}
 yy542:
-#line 1860 "src/compiler/asn_compiler.yacc"
+#line 1868 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-#line 19792 "asn_compiler.hpp"
+#line 19800 "asn_compiler.hpp"
 yy543:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19874,9 +19882,9 @@ yy545:
 		default: goto yy546;
 	}
 yy546:
-#line 1866 "src/compiler/asn_compiler.yacc"
+#line 1874 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-#line 19880 "asn_compiler.hpp"
+#line 19888 "asn_compiler.hpp"
 yy547:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -19955,9 +19963,9 @@ yy548:
 		default: goto yy549;
 	}
 yy549:
-#line 1869 "src/compiler/asn_compiler.yacc"
+#line 1877 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-#line 19961 "asn_compiler.hpp"
+#line 19969 "asn_compiler.hpp"
 yy550:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20064,9 +20072,9 @@ yy555:
 		default: goto yy556;
 	}
 yy556:
-#line 1877 "src/compiler/asn_compiler.yacc"
+#line 1885 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-#line 20070 "asn_compiler.hpp"
+#line 20078 "asn_compiler.hpp"
 yy557:
 	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20138,9 +20146,9 @@ yy557:
 		default: goto yy558;
 	}
 yy558:
-#line 1880 "src/compiler/asn_compiler.yacc"
+#line 1888 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-#line 20144 "asn_compiler.hpp"
+#line 20152 "asn_compiler.hpp"
 yy559:
 	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20212,9 +20220,9 @@ yy559:
 		default: goto yy560;
 	}
 yy560:
-#line 1881 "src/compiler/asn_compiler.yacc"
+#line 1889 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-#line 20218 "asn_compiler.hpp"
+#line 20226 "asn_compiler.hpp"
 yy561:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20328,9 +20336,9 @@ yy567:
 		default: goto yy568;
 	}
 yy568:
-#line 1897 "src/compiler/asn_compiler.yacc"
+#line 1905 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-#line 20334 "asn_compiler.hpp"
+#line 20342 "asn_compiler.hpp"
 yy569:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20430,9 +20438,9 @@ yy573:
 		default: goto yy574;
 	}
 yy574:
-#line 1907 "src/compiler/asn_compiler.yacc"
+#line 1915 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-#line 20436 "asn_compiler.hpp"
+#line 20444 "asn_compiler.hpp"
 yy575:
 	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20504,9 +20512,9 @@ yy575:
 		default: goto yy576;
 	}
 yy576:
-#line 1909 "src/compiler/asn_compiler.yacc"
+#line 1917 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-#line 20510 "asn_compiler.hpp"
+#line 20518 "asn_compiler.hpp"
 yy577:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20777,9 +20785,9 @@ yy588:
 		default: goto yy589;
 	}
 yy589:
-#line 1842 "src/compiler/asn_compiler.yacc"
+#line 1850 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-#line 20783 "asn_compiler.hpp"
+#line 20791 "asn_compiler.hpp"
 yy590:
 	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20851,9 +20859,9 @@ yy590:
 		default: goto yy591;
 	}
 yy591:
-#line 1845 "src/compiler/asn_compiler.yacc"
+#line 1853 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-#line 20857 "asn_compiler.hpp"
+#line 20865 "asn_compiler.hpp"
 yy592:
 	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20925,9 +20933,9 @@ yy592:
 		default: goto yy593;
 	}
 yy593:
-#line 1848 "src/compiler/asn_compiler.yacc"
+#line 1856 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-#line 20931 "asn_compiler.hpp"
+#line 20939 "asn_compiler.hpp"
 yy594:
 	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -20999,9 +21007,9 @@ yy594:
 		default: goto yy595;
 	}
 yy595:
-#line 1851 "src/compiler/asn_compiler.yacc"
+#line 1859 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-#line 21005 "asn_compiler.hpp"
+#line 21013 "asn_compiler.hpp"
 yy596:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21087,9 +21095,9 @@ yy598:
 		default: goto yy599;
 	}
 yy599:
-#line 1856 "src/compiler/asn_compiler.yacc"
+#line 1864 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-#line 21093 "asn_compiler.hpp"
+#line 21101 "asn_compiler.hpp"
 yy600:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21271,9 +21279,9 @@ yy607:
 		default: goto yy608;
 	}
 yy608:
-#line 1875 "src/compiler/asn_compiler.yacc"
+#line 1883 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-#line 21277 "asn_compiler.hpp"
+#line 21285 "asn_compiler.hpp"
 yy609:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21483,9 +21491,9 @@ yy620:
 		default: goto yy621;
 	}
 yy621:
-#line 1913 "src/compiler/asn_compiler.yacc"
+#line 1921 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-#line 21489 "asn_compiler.hpp"
+#line 21497 "asn_compiler.hpp"
 yy622:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21578,9 +21586,9 @@ yy625:
 		default: goto yy626;
 	}
 yy626:
-#line 1922 "src/compiler/asn_compiler.yacc"
+#line 1930 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-#line 21584 "asn_compiler.hpp"
+#line 21592 "asn_compiler.hpp"
 yy627:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21694,9 +21702,9 @@ yy633:
 		default: goto yy634;
 	}
 yy634:
-#line 1852 "src/compiler/asn_compiler.yacc"
+#line 1860 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-#line 21700 "asn_compiler.hpp"
+#line 21708 "asn_compiler.hpp"
 yy635:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21775,9 +21783,9 @@ yy636:
 		default: goto yy637;
 	}
 yy637:
-#line 1854 "src/compiler/asn_compiler.yacc"
+#line 1862 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-#line 21781 "asn_compiler.hpp"
+#line 21789 "asn_compiler.hpp"
 yy638:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21863,9 +21871,9 @@ yy640:
 		default: goto yy641;
 	}
 yy641:
-#line 1864 "src/compiler/asn_compiler.yacc"
+#line 1872 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-#line 21869 "asn_compiler.hpp"
+#line 21877 "asn_compiler.hpp"
 yy642:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -21965,9 +21973,9 @@ yy646:
 		default: goto yy647;
 	}
 yy647:
-#line 1876 "src/compiler/asn_compiler.yacc"
+#line 1884 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-#line 21971 "asn_compiler.hpp"
+#line 21979 "asn_compiler.hpp"
 yy648:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22130,9 +22138,9 @@ yy661:
 		default: goto yy662;
 	}
 yy662:
-#line 1925 "src/compiler/asn_compiler.yacc"
+#line 1933 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-#line 22136 "asn_compiler.hpp"
+#line 22144 "asn_compiler.hpp"
 yy663:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22232,9 +22240,9 @@ yy667:
 		default: goto yy668;
 	}
 yy668:
-#line 1841 "src/compiler/asn_compiler.yacc"
+#line 1849 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-#line 22238 "asn_compiler.hpp"
+#line 22246 "asn_compiler.hpp"
 yy669:
 	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22306,9 +22314,9 @@ yy669:
 		default: goto yy670;
 	}
 yy670:
-#line 1853 "src/compiler/asn_compiler.yacc"
+#line 1861 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-#line 22312 "asn_compiler.hpp"
+#line 22320 "asn_compiler.hpp"
 yy671:
 	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22380,9 +22388,9 @@ yy671:
 		default: goto yy672;
 	}
 yy672:
-#line 1858 "src/compiler/asn_compiler.yacc"
+#line 1866 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-#line 22386 "asn_compiler.hpp"
+#line 22394 "asn_compiler.hpp"
 yy673:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22559,9 +22567,9 @@ yy688:
 		default: goto yy689;
 	}
 yy689:
-#line 1917 "src/compiler/asn_compiler.yacc"
+#line 1925 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-#line 22565 "asn_compiler.hpp"
+#line 22573 "asn_compiler.hpp"
 yy690:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22710,9 +22718,9 @@ yy701:
 		default: goto yy702;
 	}
 yy702:
-#line 1882 "src/compiler/asn_compiler.yacc"
+#line 1890 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-#line 22716 "asn_compiler.hpp"
+#line 22724 "asn_compiler.hpp"
 yy703:
 	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22784,9 +22792,9 @@ yy703:
 		default: goto yy704;
 	}
 yy704:
-#line 1884 "src/compiler/asn_compiler.yacc"
+#line 1892 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-#line 22790 "asn_compiler.hpp"
+#line 22798 "asn_compiler.hpp"
 yy705:
 	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22858,9 +22866,9 @@ yy705:
 		default: goto yy706;
 	}
 yy706:
-#line 1885 "src/compiler/asn_compiler.yacc"
+#line 1893 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-#line 22864 "asn_compiler.hpp"
+#line 22872 "asn_compiler.hpp"
 yy707:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -22939,9 +22947,9 @@ yy708:
 		default: goto yy709;
 	}
 yy709:
-#line 1889 "src/compiler/asn_compiler.yacc"
+#line 1897 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-#line 22945 "asn_compiler.hpp"
+#line 22953 "asn_compiler.hpp"
 yy710:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23041,9 +23049,9 @@ yy714:
 		default: goto yy715;
 	}
 yy715:
-#line 1905 "src/compiler/asn_compiler.yacc"
+#line 1913 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-#line 23047 "asn_compiler.hpp"
+#line 23055 "asn_compiler.hpp"
 yy716:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23164,9 +23172,9 @@ yy723:
 		default: goto yy724;
 	}
 yy724:
-#line 1868 "src/compiler/asn_compiler.yacc"
+#line 1876 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-#line 23170 "asn_compiler.hpp"
+#line 23178 "asn_compiler.hpp"
 yy725:
 	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23238,9 +23246,9 @@ yy725:
 		default: goto yy726;
 	}
 yy726:
-#line 1873 "src/compiler/asn_compiler.yacc"
+#line 1881 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-#line 23244 "asn_compiler.hpp"
+#line 23252 "asn_compiler.hpp"
 yy727:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23319,9 +23327,9 @@ yy728:
 		default: goto yy729;
 	}
 yy729:
-#line 1874 "src/compiler/asn_compiler.yacc"
+#line 1882 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-#line 23325 "asn_compiler.hpp"
+#line 23333 "asn_compiler.hpp"
 yy730:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23400,9 +23408,9 @@ yy731:
 		default: goto yy732;
 	}
 yy732:
-#line 1891 "src/compiler/asn_compiler.yacc"
+#line 1899 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-#line 23406 "asn_compiler.hpp"
+#line 23414 "asn_compiler.hpp"
 yy733:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23481,9 +23489,9 @@ yy734:
 		default: goto yy735;
 	}
 yy735:
-#line 1900 "src/compiler/asn_compiler.yacc"
+#line 1908 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-#line 23487 "asn_compiler.hpp"
+#line 23495 "asn_compiler.hpp"
 yy736:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23637,9 +23645,9 @@ yy739:
 		default: goto yy740;
 	}
 yy740:
-#line 1915 "src/compiler/asn_compiler.yacc"
+#line 1923 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-#line 23643 "asn_compiler.hpp"
+#line 23651 "asn_compiler.hpp"
 yy741:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23725,9 +23733,9 @@ yy743:
 		default: goto yy744;
 	}
 yy744:
-#line 1927 "src/compiler/asn_compiler.yacc"
+#line 1935 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-#line 23731 "asn_compiler.hpp"
+#line 23739 "asn_compiler.hpp"
 yy745:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23820,9 +23828,9 @@ yy748:
 		default: goto yy749;
 	}
 yy749:
-#line 1888 "src/compiler/asn_compiler.yacc"
+#line 1896 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-#line 23826 "asn_compiler.hpp"
+#line 23834 "asn_compiler.hpp"
 yy750:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -23929,9 +23937,9 @@ yy755:
 		default: goto yy756;
 	}
 yy756:
-#line 1926 "src/compiler/asn_compiler.yacc"
+#line 1934 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-#line 23935 "asn_compiler.hpp"
+#line 23943 "asn_compiler.hpp"
 yy757:
 	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24003,9 +24011,9 @@ yy757:
 		default: goto yy758;
 	}
 yy758:
-#line 1838 "src/compiler/asn_compiler.yacc"
+#line 1846 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-#line 24009 "asn_compiler.hpp"
+#line 24017 "asn_compiler.hpp"
 yy759:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24084,9 +24092,9 @@ yy760:
 		default: goto yy761;
 	}
 yy761:
-#line 1872 "src/compiler/asn_compiler.yacc"
+#line 1880 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-#line 24090 "asn_compiler.hpp"
+#line 24098 "asn_compiler.hpp"
 yy762:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24165,9 +24173,9 @@ yy763:
 		default: goto yy764;
 	}
 yy764:
-#line 1902 "src/compiler/asn_compiler.yacc"
+#line 1910 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-#line 24171 "asn_compiler.hpp"
+#line 24179 "asn_compiler.hpp"
 yy765:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24246,9 +24254,9 @@ yy766:
 		default: goto yy767;
 	}
 yy767:
-#line 1919 "src/compiler/asn_compiler.yacc"
+#line 1927 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-#line 24252 "asn_compiler.hpp"
+#line 24260 "asn_compiler.hpp"
 yy768:
 	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24320,9 +24328,9 @@ yy768:
 		default: goto yy769;
 	}
 yy769:
-#line 1923 "src/compiler/asn_compiler.yacc"
+#line 1931 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-#line 24326 "asn_compiler.hpp"
+#line 24334 "asn_compiler.hpp"
 yy770:
 	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24394,9 +24402,9 @@ yy770:
 		default: goto yy771;
 	}
 yy771:
-#line 1862 "src/compiler/asn_compiler.yacc"
+#line 1870 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-#line 24400 "asn_compiler.hpp"
+#line 24408 "asn_compiler.hpp"
 yy772:
 	yyaccept = 98;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24468,9 +24476,9 @@ yy772:
 		default: goto yy773;
 	}
 yy773:
-#line 1893 "src/compiler/asn_compiler.yacc"
+#line 1901 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-#line 24474 "asn_compiler.hpp"
+#line 24482 "asn_compiler.hpp"
 yy774:
 	yyaccept = 99;
 	yych = *(YYMARKER = ++context_.cursor);
@@ -24542,11 +24550,11 @@ yy774:
 		default: goto yy775;
 	}
 yy775:
-#line 1906 "src/compiler/asn_compiler.yacc"
+#line 1914 "src/compiler/asn_compiler.yacc"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
-#line 24548 "asn_compiler.hpp"
+#line 24556 "asn_compiler.hpp"
 }
-#line 1981 "src/compiler/asn_compiler.yacc"
+#line 1989 "src/compiler/asn_compiler.yacc"
 
         }
     }
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 9313d7f..3438b41 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -489,6 +489,7 @@ struct ComponentType
     absl::optional<Value> default_value;
     absl::optional<Type>  components_of;
     StorageMode           optional_storage;
+    bool                  is_extension_addition;
 };
 
 struct Tag
diff --git a/src/compiler/include/fast_ber/compiler/Identifier.hpp b/src/compiler/include/fast_ber/compiler/Identifier.hpp
index de32388..c27860d 100644
--- a/src/compiler/include/fast_ber/compiler/Identifier.hpp
+++ b/src/compiler/include/fast_ber/compiler/Identifier.hpp
@@ -11,6 +11,8 @@ bool is_automatically_tagged(const SetType&, const Module&);
 bool is_automatically_tagged(const ChoiceType&, const Module&);
 
 // Identifier of an automatically tagged component
+// Tag number given to a component by automatic tagging
+std::size_t automatic_tag_number(const Collection& collection, std::size_t component_index);
 TaggingInfo automatic_identifier(const Type& type, std::size_t component_index, const Module&, const Asn1Tree&);
 
 TaggingInfo identifier(const AnyType&, const Module&, const Asn1Tree&);
-- 
2.43.0


From 408eeed75299c9bc0d8f4e162ac3c97b93b0049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:14 +0000
Subject: [PATCH 53/53] fix: resolve COMPONENTS OF through references, tags,
 sets, inline and imported types

---
 src/compiler/ReorderAssignments.cpp | 236 ++++++++++++++++++----------
 1 file changed, 157 insertions(+), 79 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 742d530..8f4a012 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -4,6 +4,7 @@
 #include "fast_ber/compiler/Logging.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
 #include "fast_ber/compiler/TypeAsString.hpp"
+#include <algorithm>
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
@@ -40,91 +41,160 @@ void check_duplicated_names(const std::vector<Assignment>& assignments, const st
     }
 }
 
+// Call function for each type which is directly contained in type
+template <typename Function>
+static void for_each_contained_type(Type& type, const Function& function)
+{
+    if (is_sequence(type) || is_set(type))
+    {
+        BuiltinType& builtin = absl::get<BuiltinType>(type);
+        for (ComponentType& component : is_set(type) ? absl::get<SetType>(builtin).components
+                                                     : absl::get<SequenceType>(builtin).components)
+        {
+            function(component.components_of ? *component.components_of : component.named_type.type);
+        }
+    }
+    else if (is_choice(type))
+    {
+        for (NamedType& named_type : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
+        {
+            function(named_type.type);
+        }
+    }
+    else if (is_sequence_of(type))
+    {
+        SequenceOfType& sequence_of = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
+        function(sequence_of.has_name ? sequence_of.named_type->type : *sequence_of.type);
+    }
+    else if (is_set_of(type))
+    {
+        SetOfType& set_of = absl::get<SetOfType>(absl::get<BuiltinType>(type));
+        function(set_of.has_name ? set_of.named_type->type : *set_of.type);
+    }
+    else if (is_prefixed(type))
+    {
+        function(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type);
+    }
+}
+
+// Make the references and tags of a type keep their meaning when it is included in a different module
+static void qualify_type(Type& type, const Module& module)
+{
+    if (is_defined(type))
+    {
+        DefinedType& defined = absl::get<DefinedType>(type);
+        if (!defined.module_reference)
+        {
+            defined.module_reference = module.module_reference;
+        }
+    }
+    else if (is_prefixed(type))
+    {
+        TaggedType& tagged = *absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type;
+        if (tagged.tagging_mode == TaggingMode::automatic)
+        {
+            tagged.tagging_mode = (module.tagging_default == TaggingMode::explicit_) ? TaggingMode::explicit_
+                                                                                     : TaggingMode::implicit;
+        }
+    }
+    for_each_contained_type(type, [&](Type& contained) { qualify_type(contained, module); });
+}
+
+// Replace each COMPONENTS OF with the components of the type it refers to, which may itself include other types
+static std::vector<ComponentType> expand_components_of(const Asn1Tree& tree, const Module& module,
+                                                       const std::vector<ComponentType>& components,
+                                                       const std::string&                name,
+                                                       std::vector<const Type*>&         including)
+{
+    std::vector<ComponentType> expanded;
+    for (const ComponentType& component : components)
+    {
+        if (!component.components_of)
+        {
+            expanded.push_back(component);
+            continue;
+        }
+
+        // Find the type behind references and tags
+        const Module* included_module = &module;
+        const Type*   included        = &*component.components_of;
+        for (std::size_t steps = 0; is_defined(*included) || is_prefixed(*included); steps++)
+        {
+            if (steps > 1000)
+            {
+                throw std::runtime_error("Type referred to by COMPONENTS OF in " + name + " refers to itself");
+            }
+            if (is_defined(*included))
+            {
+                const DefinedType& defined = absl::get<DefinedType>(*included);
+                included_module            = &find_module(tree, *included_module, defined);
+                included = &type(resolve(tree, included_module->module_reference, defined.type_reference));
+            }
+            else
+            {
+                included = &absl::get<PrefixedType>(absl::get<BuiltinType>(*included)).tagged_type->type;
+            }
+        }
+
+        if (std::find(including.begin(), including.end(), included) != including.end())
+        {
+            throw std::runtime_error("COMPONENTS OF in " + name + " includes itself");
+        }
+        if (!is_sequence(*included) && !is_set(*included))
+        {
+            throw std::runtime_error("Strange type when resolving COMPONENTS OF in type " + name);
+        }
+
+        including.push_back(included);
+        std::vector<ComponentType> inherited = expand_components_of(
+            tree, *included_module,
+            is_set(*included) ? absl::get<SetType>(absl::get<BuiltinType>(*included)).components
+                              : absl::get<SequenceType>(absl::get<BuiltinType>(*included)).components,
+            name, including);
+        including.pop_back();
+
+        for (ComponentType& inherited_component : inherited)
+        {
+            // Extension additions are not included
+            if (inherited_component.is_extension_addition)
+            {
+                continue;
+            }
+            inherited_component.is_extension_addition = component.is_extension_addition;
+            if (included_module != &module)
+            {
+                qualify_type(inherited_component.named_type.type, *included_module);
+            }
+            expanded.push_back(inherited_component);
+        }
+    }
+    return expanded;
+}
+
+static void resolve_components_of(const Asn1Tree& tree, const Module& module, Type& type, const std::string& name)
+{
+    if (is_sequence(type) || is_set(type))
+    {
+        BuiltinType&                builtin    = absl::get<BuiltinType>(type);
+        std::vector<ComponentType>& components = is_set(type) ? absl::get<SetType>(builtin).components
+                                                              : absl::get<SequenceType>(builtin).components;
+        std::vector<const Type*>    including{&type};
+        components = expand_components_of(tree, module, components, name, including);
+    }
+    for_each_contained_type(
+        type, [&](Type& contained) { resolve_components_of(tree, module, contained, name); });
+}
+
 void resolve_components_of(Asn1Tree& tree)
 {
     for (Module& module : tree.modules)
     {
-        for (Assignment& assignemnt : module.assignments)
+        for (Assignment& assignment : module.assignments)
         {
-            if (absl::holds_alternative<TypeAssignment>(assignemnt.specific))
+            if (absl::holds_alternative<TypeAssignment>(assignment.specific))
             {
-                TypeAssignment& type_assignment = absl::get<TypeAssignment>(assignemnt.specific);
-                if (is_sequence(type_assignment.type))
-                {
-                    SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type_assignment.type));
-                    for (auto iter = sequence.components.begin(); iter != sequence.components.end(); iter++)
-                    {
-                        if (iter->components_of)
-                        {
-                            if (is_defined(*iter->components_of))
-                            {
-                                const DefinedType& defined    = absl::get<DefinedType>(*iter->components_of);
-                                const Type&        inheretied = type(resolve(tree, module.module_reference, defined));
-                                if (is_sequence(inheretied))
-                                {
-                                    const SequenceType& inheretied_sequence =
-                                        absl::get<SequenceType>(absl::get<BuiltinType>(inheretied));
-
-                                    const size_t offset = std::distance(sequence.components.begin(), iter);
-                                    sequence.components.insert(iter, inheretied_sequence.components.begin(),
-                                                               inheretied_sequence.components.end());
-
-                                    iter = sequence.components.begin();
-                                    std::advance(iter, offset);
-                                    std::advance(iter, inheretied_sequence.components.size());
-                                }
-                                else if (is_set(inheretied))
-                                {
-                                    const SetType& inheretied_set =
-                                        absl::get<SetType>(absl::get<BuiltinType>(inheretied));
-
-                                    const size_t offset = std::distance(sequence.components.begin(), iter);
-                                    sequence.components.insert(iter, inheretied_set.components.begin(),
-                                                               inheretied_set.components.end());
-
-                                    iter = sequence.components.begin();
-                                    std::advance(iter, offset);
-                                    std::advance(iter, inheretied_set.components.size());
-                                }
-                            }
-                            else if (is_sequence(*iter->components_of))
-                            {
-                                const SequenceType& inheretied_sequence =
-                                    absl::get<SequenceType>(absl::get<BuiltinType>(*iter->components_of));
-
-                                const size_t offset = std::distance(sequence.components.begin(), iter);
-                                sequence.components.insert(iter, inheretied_sequence.components.begin(),
-                                                           inheretied_sequence.components.end());
-
-                                iter = sequence.components.begin();
-                                std::advance(iter, offset);
-                                std::advance(iter, inheretied_sequence.components.size());
-                            }
-                            else if (is_set(*iter->components_of))
-                            {
-                                const SetType& inheretied_set =
-                                    absl::get<SetType>(absl::get<BuiltinType>(*iter->components_of));
-
-                                const size_t offset = std::distance(sequence.components.begin(), iter);
-                                sequence.components.insert(iter, inheretied_set.components.begin(),
-                                                           inheretied_set.components.end());
-
-                                iter = sequence.components.begin();
-                                std::advance(iter, offset);
-                                std::advance(iter, inheretied_set.components.size());
-                            }
-                            else
-                            {
-                                throw std::runtime_error("Strange type when resolving SEQUENCE OF in type" +
-                                                         assignemnt.name);
-                            }
-                        }
-                    }
-                    sequence.components.erase(
-                        std::remove_if(sequence.components.begin(), sequence.components.end(),
-                                       [](ComponentType& component) { return component.components_of; }),
-                        sequence.components.end());
-                }
+                resolve_components_of(tree, module, absl::get<TypeAssignment>(assignment.specific).type,
+                                      assignment.name);
             }
         }
     }
@@ -412,6 +482,10 @@ void find_nested_structs(const Module& module, Type& type, std::vector<NamedType
     {
         for (ComponentType& component : absl::get<SetType>(absl::get<BuiltinType>(type)).components)
         {
+            if (component.components_of)
+            {
+                find_nested_structs(module, *component.components_of, nested_structs);
+            }
             find_nested_structs(module, component.named_type.type, nested_structs);
         }
     }
@@ -419,6 +493,10 @@ void find_nested_structs(const Module& module, Type& type, std::vector<NamedType
     {
         for (ComponentType& component : absl::get<SequenceType>(absl::get<BuiltinType>(type)).components)
         {
+            if (component.components_of)
+            {
+                find_nested_structs(module, *component.components_of, nested_structs);
+            }
             find_nested_structs(module, component.named_type.type, nested_structs);
         }
     }
-- 
2.43.0

