From 02c954bd5211718b948931b47f941f32db32e4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:27 +0000
Subject: [PATCH 01/20] fix: WriteBufferFixedSize::push(bytes, length) must not
 overflow its bounds check

write_index_ + length wraps for large lengths, after which the copy writes
outside the array; and an array which exactly fills the buffer was refused.
---
 src/WriteBufferFixedSize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 6e0fc83..990ad0d 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -85,7 +85,7 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::WriteBufferInterface::push()
       bool push(const uint8_t* bytes, const uint32_t length) override
       {
-        bool return_value = BUFFER_SIZE > (write_index_ + length);
+        bool return_value = length <= (BUFFER_SIZE - write_index_);
         if(return_value)
         {
           memcpy(data_.data() + write_index_, bytes, length);
-- 
2.43.0


From 79872443f3acc2274ad11b08eedbcaaf16e53565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:27 +0000
Subject: [PATCH 02/20] fix: ReadBufferFixedSize::advance(N) must not move the
 read index backwards

read_index_ + N wraps for large N, which a hostile length can request, and the
bytes already consumed were read again.
---
 src/ReadBufferFixedSize.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ReadBufferFixedSize.h b/src/ReadBufferFixedSize.h
index ed38e9e..735bc3f 100644
--- a/src/ReadBufferFixedSize.h
+++ b/src/ReadBufferFixedSize.h
@@ -88,11 +88,10 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::advance(const uint32_t N)
       bool advance(const uint32_t N) override
       {
-        const uint32_t new_read_index = read_index_ + N;
-        const bool return_value = write_index_ >= new_read_index;
+        const bool return_value = (write_index_ >= read_index_) && (N <= (write_index_ - read_index_));
         if(return_value)
         {
-          read_index_ = new_read_index;
+          read_index_ += N;
         }
         return return_value;
       }
-- 
2.43.0


From 724162ebec04e7ff7a996fe7ff5fa4f90b06a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:06 +0000
Subject: [PATCH 03/20] fix: ReadBufferSection::advance(n) must report that
 fewer than n bytes are left

It returned true after having advanced less than requested.
---
 src/ReadBufferSection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index c0c09a9..0d440b9 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -81,7 +81,7 @@ namespace EmbeddedProto
     if(result) 
     {
       uint32_t n = (n_bytes <= size_) ? n_bytes : size_;
-      result = buffer_.advance(n);
+      result = buffer_.advance(n) && (n == n_bytes);
       size_ -= n;
     }
     return result;
-- 
2.43.0


From 7ea43ffcb0066b66e1330698019bc773a5dad69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:04 +0000
Subject: [PATCH 04/20] fix: SerializeVarint must not lose a failed push

The result of the last push overwrote an earlier failure: with a buffer which
refuses one byte and accepts the next, a corrupt varint was reported as written.
---
 src/WireFormatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 6db0422..61e8743 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -532,7 +532,7 @@ namespace EmbeddedProto
           memory_free = buffer.push(static_cast<uint8_t>(value | VARINT_MSB_BYTE));
           value >>= VARINT_SHIFT_N_BITS;
         }
-        memory_free = buffer.push(static_cast<uint8_t>(value));
+        memory_free = buffer.push(static_cast<uint8_t>(value)) && memory_free;
 
         const Error return_value = memory_free ? Error::NO_ERRORS : Error::BUFFER_FULL;
         return return_value;
-- 
2.43.0


From 918b4d1e6ced304e571be1c459b2d49e9b700c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:04 +0000
Subject: [PATCH 05/20] fix: DeserializeBool must consume the whole varint

A bool encoded in more than one byte is valid. Only its first byte was read, the
others were taken for the next tag.
---
 src/WireFormatter.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 61e8743..3e1d32c 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -483,15 +483,11 @@ namespace EmbeddedProto
 
       static Error DeserializeBool(ReadBufferInterface& buffer, bool& value) 
       {
-        uint8_t byte;
-        Error result = Error::NO_ERRORS;
-        if(buffer.pop(byte))
-        {
-          value = static_cast<bool>(byte);
-        }
-        else 
+        uint64_t temp_value;
+        Error result = DeserializeVarint(buffer, temp_value);
+        if(Error::NO_ERRORS == result)
         {
-          result = Error::END_OF_BUFFER;
+          value = (0 != temp_value);
         }
         return result;
       }
-- 
2.43.0


From 32c1f7d40d96fa66bda0129e42994fe542a8b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:47 +0000
Subject: [PATCH 06/20] fix: enumeration fields must accept ten byte encodings
 of negative values

---
 src/Fields.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Fields.h b/src/Fields.h
index 4e391f9..24034be 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -408,11 +408,12 @@ namespace EmbeddedProto
       template<Field::FieldTypes DES_FIELDTYPE, typename std::enable_if<Field::FieldTypes::enumeration == DES_FIELDTYPE, bool>::type = true>
       Error deserialize_(ReadBufferInterface& buffer)
       { 
-        uint32_t value = 0;
+        // Enums are encoded like an int32, negative values written by other implementations occupy ten bytes.
+        uint64_t value = 0;
         const Error return_value = WireFormatter::DeserializeVarint(buffer, value);
         if(::EmbeddedProto::Error::NO_ERRORS == return_value)
         {
-          value_ = static_cast<VARIABLE_TYPE>(value);
+          value_ = static_cast<VARIABLE_TYPE>(static_cast<uint32_t>(value));
         }
         return return_value;
       }
-- 
2.43.0


From 22a577a987de636c74389c6ee8d35ae8758aaf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:10 +0000
Subject: [PATCH 07/20] fix: skip_unknown_field must report wire types it
 cannot skip

---
 src/MessageInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index db9b4b6..098d719 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -114,7 +114,8 @@ namespace EmbeddedProto
         break;
 
       default:
-        // We should never get here. DeserializeTag catches this case.
+        // The deprecated group wire types are not supported, there is no way to know how much to skip.
+        return_value = Error::INVALID_WIRETYPE;
         break;
     }
 
-- 
2.43.0


From 1351184d95fed4e3b736a80c52cd839f5382f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:48 +0000
Subject: [PATCH 08/20] fix: a nested message cut short by the end of the
 buffer must be reported

---
 src/MessageInterface.cpp  | 6 ++++++
 src/ReadBufferSection.cpp | 5 ++++-
 src/RepeatedField.h       | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index 098d719..3f18814 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -84,6 +84,12 @@ namespace EmbeddedProto
       if(::EmbeddedProto::Error::NO_ERRORS == return_value)
       {
         return_value = deserialize(bufferSection);
+        if((::EmbeddedProto::Error::NO_ERRORS == return_value) && 
+           ((0 < bufferSection.get_size()) || (size > bufferSection.get_max_size())))
+        {
+          // The buffer ended before all bytes of this message were received.
+          return_value = Error::END_OF_BUFFER;
+        }
       }
     }
     return return_value;
diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index 0d440b9..e624622 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -93,7 +93,10 @@ namespace EmbeddedProto
     if(result)
     {
       result = buffer_.pop(byte);
-      --size_;
+      if(result)
+      {
+        --size_;
+      }
     }
     return result;
   }
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d6ea279..ba7b3a1 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -380,6 +380,12 @@ namespace EmbeddedProto
             {
               ReadBufferSection bufferSection(buffer, size);
               return_value = this->get(index).deserialize(bufferSection);
+              if((Error::NO_ERRORS == return_value) && 
+                 ((0 < bufferSection.get_size()) || (size > bufferSection.get_max_size())))
+              {
+                // The buffer ended before all bytes of this element were received.
+                return_value = Error::END_OF_BUFFER;
+              }
             }
           }
           else 
-- 
2.43.0


From 991b0c3d357d68b8286d05c7f1bbf55c7a8ef719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:33 +0000
Subject: [PATCH 09/20] fix: packed repeated fields must report a bad length
 and truncated elements

---
 src/RepeatedField.h | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index ba7b3a1..3f1ddf8 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -339,23 +339,26 @@ namespace EmbeddedProto
       {
         uint32_t size = 0;
         Error return_value = WireFormatter::DeserializeVarint(buffer, size);
-        ReadBufferSection bufferSection(buffer, size);
-        DATA_TYPE x;
-        
-        return_value = x.deserialize(bufferSection);
-        while(Error::NO_ERRORS == return_value)
+        if(Error::NO_ERRORS == return_value)
         {
-          return_value = this->add(x);
-          if(Error::NO_ERRORS == return_value)
+          ReadBufferSection bufferSection(buffer, size);
+          DATA_TYPE x;
+
+          // Decode elements until all the bytes of this field are used.
+          while((Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
           {
             return_value = x.deserialize(bufferSection);
+            if(Error::NO_ERRORS == return_value)
+            {
+              return_value = this->add(x);
+            }
           }
-        }
 
-        // We expect the buffersection to be empty, in that case everything is fine..
-        if(Error::END_OF_BUFFER == return_value)
-        {
-          return_value = Error::NO_ERRORS;
+          if((Error::NO_ERRORS == return_value) && (size > bufferSection.get_max_size()))
+          {
+            // The buffer ended before all bytes of this field were received.
+            return_value = Error::END_OF_BUFFER;
+          }
         }
 
         return return_value;
-- 
2.43.0


From 36d6ccb03807179c710d9dffc2a358e5f0b421e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:00 +0000
Subject: [PATCH 10/20] fix: elements dropped by a shorter assignment must not
 reappear

---
 src/FieldStringBytes.h       | 16 +++++++++-------
 src/RepeatedFieldFixedSize.h | 11 +++++++++++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 605da20..775413d 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -35,6 +35,7 @@
 #include "Fields.h"
 #include "Errors.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <type_traits>
@@ -161,8 +162,13 @@ namespace EmbeddedProto
           Error return_value = Error::NO_ERRORS;
           if(MAX_LENGTH >= length)
           {
-            current_length_ = length;
             memcpy(data_.data(), data, length);
+            if(length < current_length_)
+            {
+              // Wipe what is left of the previous data.
+              std::fill(data_.begin() + length, data_.begin() + current_length_, static_cast<DATA_TYPE>(0));
+            }
+            current_length_ = length;
           }
           else
           {
@@ -337,12 +343,8 @@ namespace EmbeddedProto
         if(nullptr != str) {
           const uint32_t str_MAX_LENGTH = strnlen(str, MAX_LENGTH + 1);
           this->set_length(str_MAX_LENGTH);
-          uint32_t this_length = this->get_length();
-          // If it fits in this object copy the null terminator.
-          if(MAX_LENGTH > this_length) {
-            ++this_length;
-          }
-          strncpy(this->get(), str, this_length);
+          // Copy the characters and pad with zeros, this wipes the previous text.
+          strncpy(this->get(), str, MAX_LENGTH);
         }
         else {
           this->clear();
diff --git a/src/RepeatedFieldFixedSize.h b/src/RepeatedFieldFixedSize.h
index 5a00e1c..cd8ce71 100644
--- a/src/RepeatedFieldFixedSize.h
+++ b/src/RepeatedFieldFixedSize.h
@@ -89,6 +89,7 @@ namespace EmbeddedProto
         {
           data_[i] = rhs.get_const(i);
         }
+        clear_from(rhs.get_length());
         current_length_ = rhs.get_length();
         
         return *this;
@@ -157,6 +158,7 @@ namespace EmbeddedProto
             (data_[i]) = (*d);
             ++d;
           }
+          clear_from(length);
           current_length_ = length;        
         }
         else 
@@ -195,6 +197,15 @@ namespace EmbeddedProto
 
     private:
 
+      //! Clear the elements in use from the given index onwards, such that they will not reappear when the length grows.
+      void clear_from(const uint32_t index)
+      {
+        for(uint32_t i = index; i < current_length_; ++i)
+        {
+          data_[i].clear();
+        }
+      }
+
       //! Number of item in the data array.
       uint32_t current_length_ = 0;
 
-- 
2.43.0


From ba9ee201125303d5a3e2c7a84c5eef2b0f1df666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:08 +0000
Subject: [PATCH 11/20] fix: a plain float or double field holding negative
 zero must be written

---
 generator/EmbeddedProto/templates/FieldBasic_Serialize.h | 3 +++
 generator/EmbeddedProto/templates/Header.h               | 1 +
 2 files changed, 4 insertions(+)

diff --git a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
index 3ff4e42..452fb10 100644
--- a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
+++ b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
@@ -29,6 +29,9 @@ Postal address:
 #}
 {% if (field.optional or (field.oneof is not none)) %}
 if(has_{{field.get_name()}}() && (::EmbeddedProto::Error::NO_ERRORS == return_value))
+{% elif field.get_cstdint_type() in ["float", "double"] %}
+{# Negative zero equals the default value but it is a different value on the wire. #}
+if((({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) || std::signbit({{field.get_variable_name()}}.get())) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% else %}
 if(({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% endif %}
diff --git a/generator/EmbeddedProto/templates/Header.h b/generator/EmbeddedProto/templates/Header.h
index c61b30d..39c15f4 100644
--- a/generator/EmbeddedProto/templates/Header.h
+++ b/generator/EmbeddedProto/templates/Header.h
@@ -47,6 +47,7 @@
 #include <FieldStringBytes.h>
 #include <Errors.h>
 #include <Defines.h>
+#include <cmath>
 #include <limits>
 
 {% endif %}
-- 
2.43.0


From be3410549d6231a5619e4bf11e0fcad0401bf2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:19 +0000
Subject: [PATCH 12/20] fix: register the template parameters of a repeated
 field whose type has parameters

A repeated field with a maxLength option and a message type with template
parameters did not register the parameters of that type, such that the
generated code used undeclared parameters.
---
 generator/EmbeddedProto/Field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 0c48167..1df375c 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -533,8 +533,8 @@ class FieldRepeated(Field):
         self.actual_type.match_field_with_definitions(all_types_definitions)
 
     def register_template_parameters(self):
-        # If we do not have a max length defined register the template parameter.
-        if not self.MaxLength:
+        # If we do not have a max length defined, or the type we repeat has parameters of its own, register them.
+        if self.get_template_parameters():
             self.parent.register_child_with_template(self)
         return True
 
-- 
2.43.0


From b194d614d509b75c93c6b20ce87076700edabec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 13/20] fix: enumerations with negative values get a signed
 underlying type

The generated code for an enumeration with a negative value did not compile as
the underlying type was always uint32_t.
---
 generator/EmbeddedProto/TypeDefinitions.py      | 4 ++++
 generator/EmbeddedProto/templates/TypeDefEnum.h | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/TypeDefinitions.py b/generator/EmbeddedProto/TypeDefinitions.py
index 8a61af4..cec2ff6 100644
--- a/generator/EmbeddedProto/TypeDefinitions.py
+++ b/generator/EmbeddedProto/TypeDefinitions.py
@@ -119,6 +119,10 @@ class EnumDefinition(TypeDefinition):
         for value in self.descriptor.value:
             yield value
 
+    # The underlying type, only when there are negative values a signed type is required.
+    def underlying_type(self):
+        return "int32_t" if any(value.number < 0 for value in self.values()) else "uint32_t"
+
 
 # -----------------------------------------------------------------------------
 
diff --git a/generator/EmbeddedProto/templates/TypeDefEnum.h b/generator/EmbeddedProto/templates/TypeDefEnum.h
index d820389..f047c98 100644
--- a/generator/EmbeddedProto/templates/TypeDefEnum.h
+++ b/generator/EmbeddedProto/templates/TypeDefEnum.h
@@ -27,7 +27,7 @@ Postal address:
   1627 LE, Hoorn
   the Netherlands
 #}
-enum class {{ typedef.name }} : uint32_t
+enum class {{ typedef.name }} : {{ typedef.underlying_type() }}
 {
   {% for value in typedef.values() %}
   {{ value.name }} = {{ value.number }}{{ "," if not loop.last }}
-- 
2.43.0


From ac088f052f22d0a02178b94d37b212176740cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 14/20] fix: the headers did not compile as C++11 with clang

A constexpr function in C++11 cannot return void.
---
 src/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defines.h b/src/Defines.h
index 6c86ed0..22c9e8e 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -61,7 +61,7 @@ namespace EmbeddedProto
 #elif __cplusplus >= 201103L // C++11
 
   template<class T>
-  constexpr void destroy_at(T* p) 
+  inline void destroy_at(T* p) 
   {
     p->~T(); 
   }
-- 
2.43.0


From 5709c394be86b0c4d594448124b99ccf09ef8cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 15/20] fix: include the header declaring memcpy in
 WriteBufferFixedSize.h

---
 src/WriteBufferFixedSize.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 990ad0d..69579f4 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -33,6 +33,7 @@
 
 #include "WriteBufferInterface.h"
 #include <array>
+#include <cstring>
 
 namespace EmbeddedProto 
 {
-- 
2.43.0


From b84d6858404a3a03a17cc54f52a79716ed1c40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:01 +0000
Subject: [PATCH 16/20] fix: to_string wrote outside of the array when the text
 did not fit

snprintf returns the number of characters it would have written. When the text
is cut short the number of characters left wrapped around.
---
 generator/EmbeddedProto/templates/TypeDefMsg.h |  9 +++------
 src/Defines.h                                  |  8 ++++++++
 src/FieldStringBytes.h                         | 15 +++++----------
 src/Fields.h                                   |  9 +++------
 src/RepeatedField.h                            |  9 +++------
 5 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 6c7b0c9..3d17184 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -289,8 +289,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
       }
 
@@ -319,8 +318,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        left_chars.advance(n_chars_used);
       }
 
       {% for field in typedef.fields %}
@@ -342,8 +340,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
 
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        left_chars.advance(n_chars_used);
       }
 
       return left_chars;
diff --git a/src/Defines.h b/src/Defines.h
index 22c9e8e..76a9689 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -78,6 +78,14 @@ namespace EmbeddedProto
   struct array_view {
     T* data; //!< A pointer to the start of an array.
     uint32_t size; //!< The number of elements in the array.
+
+    //! Skip the given number of elements, but never go beyond the end of the array.
+    void advance(const uint32_t n)
+    {
+      const uint32_t n_skip = (n < size) ? n : size;
+      data += n_skip;
+      size -= n_skip;
+    }
   };
 
   using string_view = array_view<char>;
diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 775413d..bc18544 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -365,8 +365,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -381,8 +380,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
@@ -445,8 +443,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -461,8 +458,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         uint32 field;
@@ -476,8 +472,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
diff --git a/src/Fields.h b/src/Fields.h
index 24034be..fa16991 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -252,8 +252,7 @@ namespace EmbeddedProto
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
           if(0 < n_chars_used) {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -271,8 +270,7 @@ namespace EmbeddedProto
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         if constexpr((Field::FieldTypes::int32 == FIELDTYPE) ||
@@ -322,8 +320,7 @@ namespace EmbeddedProto
 
         if(0 < n_chars_used) {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 3f1ddf8..519c177 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -271,8 +271,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -280,8 +279,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         for(uint32_t i = 0; i < this->get_length(); ++i)
@@ -293,8 +291,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
-- 
2.43.0


From 6397db7b342506ad41df596da02461ef27cbc332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:01 +0000
Subject: [PATCH 17/20] fix: to_string of a string field which is filled
 completely read beyond its data

---
 src/FieldStringBytes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index bc18544..6f5ab27 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -371,11 +371,11 @@ namespace EmbeddedProto
 
         if(nullptr != name)
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%s\"", indent_level, " ", name, this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%.*s\"", indent_level, " ", name, static_cast<int>(this->get_length()), this->get_const());
         }
         else
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\"", indent_level, " ", this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%.*s\"", indent_level, " ", static_cast<int>(this->get_length()), this->get_const());
         }
         
         if(0 < n_chars_used) 
-- 
2.43.0


From e5d2666df0f2ebef50ba9efe5740e812149b45dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:17 +0000
Subject: [PATCH 18/20] fix: the order of messages when one uses a type of its
 own deeper nested messages or its name begins another name

A field with a type defined inside of a nested message was reported as a
circular dependency. And a dependency of a nested message was lost when the
name of the message begins the name of the message depended upon.
---
 generator/EmbeddedProto/ProtoFile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index ad61918..46b03ac 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -49,7 +49,7 @@ def toposort_add_msg(msg, namespace, dependency_data):
         local_definitions.append(full_msg_type)
         for dep in dependency_data[full_msg_type]:
             # Add requirements on other namespaces.
-            if not dep.startswith(local_namespace):
+            if (dep != local_namespace) and not dep.startswith(local_namespace + "."):
                 dependencies.add(dep)
 
     for nested_enum in msg.enum_type:
@@ -59,7 +59,8 @@ def toposort_add_msg(msg, namespace, dependency_data):
 
     for f in msg.field:
         if ((FieldDescriptorProto.TYPE_MESSAGE == f.type) or (FieldDescriptorProto.TYPE_ENUM == f.type)) \
-                and (f.type_name not in local_definitions):
+                and (f.type_name not in local_definitions) \
+                and not f.type_name.startswith(local_namespace + "."):
             dependencies.add(f.type_name)
 
     # If we have any dependencies add them
-- 
2.43.0


From 116e47c2f41d5740d1da89e452b2f23fc8be6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:13 +0000
Subject: [PATCH 19/20] fix: to_string of a message with only oneofs wrote a
 comma before the first member when the first oneof is not set

---
 generator/EmbeddedProto/templates/TypeDefMsg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 3d17184..b695e9e 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -327,7 +327,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       {% endif %}
       {% endfor %}
       {% for oneof in typedef.oneofs %}
-      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {{((typedef.fields|length == 0) and loop.first)|lower }});
+      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {% if typedef.fields|length == 0 %}{% for earlier in typedef.oneofs[:loop.index0] %}(FieldNumber::NOT_SET == {{earlier.get_which_oneof()}}) && {% endfor %}true{% else %}false{% endif %});
       {% endfor %}  
       if( 0 == indent_level) 
       {
-- 
2.43.0


From 8b5b302c9eeb0f1e84190e9232289902a01e2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:30 +0000
Subject: [PATCH 20/20] fix: include guards of generated headers were no
 identifiers or shared for some file names

---
 generator/EmbeddedProto/ProtoFile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 46b03ac..92798e6 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -30,6 +30,8 @@
 
 from .TypeDefinitions import *
 import os
+import re
+import zlib
 from toposort import CircularDependencyError, toposort_flatten
 from google.protobuf.descriptor_pb2 import FieldDescriptorProto
 
@@ -151,7 +153,10 @@ class ProtoFile:
         return result
 
     def get_header_guard(self):
-        return self.filename_with_folder.replace("/", "_").upper()
+        # Any character is allowed in a file name, but not in a macro name. The checksum tells apart names like "a-b", "a_b"
+        # and "a/b".
+        guard = re.sub("[^A-Z0-9]+", "_", self.filename_with_folder.upper()).strip("_")
+        return "EAMS_{}_{:08X}".format(guard, zlib.crc32(self.filename_with_folder.encode("utf-8")))
 
     # Obtain a dictionary with references to all nested enums and messages
     def get_all_nested_types(self):
-- 
2.43.0

