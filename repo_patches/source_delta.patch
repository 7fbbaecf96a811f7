From 3f9b3c293faa519a54105562629da26496b0ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:22 +0000
Subject: [PATCH 01/52] fix: do not silently skip backslash and . / ^ _ ` where
 a value or name must start

Such a byte was dropped, so malformed text was accepted and an unquoted
name or value lost its leading character ('log: /var/x' became 'var/x').
---
 include/json_struct/json_struct.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9bcf75c..f2de53c 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2248,13 +2248,14 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_LIKELY(lc & Internal::AsciiLetters))
+    else if (JSON_STRUCT_LIKELY(lc & Internal::AsciiLetters) ||
+             (allow_ascii_properties && (lc & Internal::HatUnderscoreAprostoph)))
     {
       *type = Type::Ascii;
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_UNLIKELY(lc == 0))
+    else if (JSON_STRUCT_UNLIKELY(!(lc & Internal::WhiteSpaceOrNull)))
     {
       *chars_ahead = current_pos - cursor_index;
       return Error::EncounteredIllegalChar;
-- 
2.43.0


From c3e4cd7a498d3ad05b4b066bc26a7da2e0aecbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:22 +0000
Subject: [PATCH 02/52] fix: reject an object or array inside an object that
 has no property name

'{{}}' and '{[1]}' were accepted by the tokenizer.
---
 include/json_struct/json_struct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f2de53c..f8afe25 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2686,6 +2686,10 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
 
         case Type::ObjectStart:
         case Type::ArrayStart:
+          if (!container_stack.empty() && container_stack.back() == Type::ObjectStart)
+          {
+            return Error::ExpectedPropertyName;
+          }
           populate_anonymous_token(data, type, next_token);
           expecting_prop_or_anonymous_data = false;
           token_state = InTokenState::FindingName;
-- 
2.43.0


From 2b7fe296638203664d70570c56e3a6d46b3185a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:23 +0000
Subject: [PATCH 03/52] fix: reject unquoted words in arrays unless ascii types
 are allowed

'[abc]' was accepted in strict mode although '{"a":abc}' is not.
---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f8afe25..44b5890 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2725,6 +2725,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       expecting_prop_or_anonymous_data = false;
       if (token_state == InTokenState::FindingName)
       {
+        if (tmp_token.name_type == Type::Ascii && !allow_ascii_properties)
+          return Error::IllegalDataValue;
         populate_anonymous_token(tmp_token.name, tmp_token.name_type, next_token);
         return Error::NoError;
       }
-- 
2.43.0


From 5ed85ad02fbd34f1d6b972925f8b520e8a07364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:23 +0000
Subject: [PATCH 04/52] fix: reject a property whose value is missing

'{"a":}' was accepted: the closing bracket was returned as the value.
---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 44b5890..16510e9 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2790,6 +2790,9 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       if (tmp_token.value_type == Type::Ascii && !allow_ascii_properties)
         return Error::IllegalDataValue;
 
+      if (type == Type::ObjectEnd || type == Type::ArrayEnd)
+        return Error::ExpectedDataToken;
+
       if (type == Type::ObjectStart || type == Type::ArrayStart)
       {
         token_state = InTokenState::FindingName;
-- 
2.43.0


From a2170b100f72c3968b54ef1b9020079a0f13c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:54 +0000
Subject: [PATCH 05/52] fix: honour a pending escape when a string continues in
 a new buffer (SIMD scan)

The vectorised string scan skipped whole blocks while an escape carried over
from the previous buffer was still pending, so the escape hit a later byte.
---
 include/json_struct/json_struct.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 16510e9..4f08d63 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1931,7 +1931,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
   const bool escaped_before_simd = is_escaped;
 #endif
 #ifdef JSON_STRUCT_HAS_AVX2
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 32))
+  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 32 && !is_escaped))
   {
     size_t consumed =
       Internal::findStringEndAVX2(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
@@ -1942,7 +1942,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
     }
   }
 #elif defined(JSON_STRUCT_HAS_NEON)
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16))
+  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16 && !is_escaped))
   {
     size_t consumed =
       Internal::findStringEndNEON(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
@@ -1953,7 +1953,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
     }
   }
 #elif defined(JSON_STRUCT_HAS_SSE2)
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16))
+  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16 && !is_escaped))
   {
     size_t consumed =
       Internal::findStringEndSIMD(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
-- 
2.43.0


From 7e42deeeb8e8420333aac354d562e9f5625567b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:20 +0000
Subject: [PATCH 06/52] fix: keep a name or array element whose delimiter
 arrives in a later buffer

When a buffer ended between a name (or a scalar array element) and its
delimiter, or right after the colon, the text already read was lost.
---
 include/json_struct/json_struct.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4f08d63..27824dc 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2709,6 +2709,12 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       break;
 
     case InTokenState::FindingDelimiter:
+      if (intermediate_token.active)
+      {
+        tmp_token.name = DataRef(intermediate_token.name);
+        tmp_token.name_type =
+          Internal::getType(intermediate_token.name_type, tmp_token.name.data, tmp_token.name.size);
+      }
       error = findDelimiter(json_data, &diff);
       if (error != Error::NoError)
       {
@@ -2814,6 +2820,13 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       break;
     }
   }
+  if ((token_state == InTokenState::FindingDelimiter || token_state == InTokenState::FindingData) &&
+      !intermediate_token.active)
+  {
+    intermediate_token.name.append(tmp_token.name.data, tmp_token.name.size);
+    intermediate_token.name_type = tmp_token.name_type;
+    intermediate_token.active = true;
+  }
   return Error::NeedMoreData;
 }
 
-- 
2.43.0


From 4c8bd0e72b692b735585eb8d2d7bb1a04465cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:14 +0000
Subject: [PATCH 07/52] fix: continue a // comment that is cut by the end of a
 buffer

The rest of the comment in the next buffer was tokenized as JSON, and a
buffer ending between the two slashes was not recognised as a comment.
---
 include/json_struct/json_struct.h | 79 +++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 27824dc..52f5db7 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1413,6 +1413,8 @@ private:
   Error findDelimiter(const DataRef &json_data, size_t *chars_ahead);
   Error findTokenEnd(const DataRef &json_data, size_t *chars_ahead);
   Error skipComment(const DataRef &json_data, size_t *chars_ahead);
+  Error continueComment(const DataRef &json_data);
+  bool slashEndsBuffer(const DataRef &json_data, size_t pos);
   void requestMoreData();
   void releaseFirstDataRef();
   Error populateFromDataRef(DataRef &data, Type &type, const DataRef &json_data);
@@ -1429,6 +1431,8 @@ private:
   bool allow_comments : 1;
   bool expecting_prop_or_anonymous_data : 1;
   bool continue_after_need_more_data : 1;
+  bool in_comment : 1;
+  bool pending_slash : 1;
   size_t cursor_index;
   size_t current_data_start;
   size_t line_context;
@@ -1589,6 +1593,8 @@ inline Tokenizer::Tokenizer()
   , allow_comments(false)
   , expecting_prop_or_anonymous_data(false)
   , continue_after_need_more_data(false)
+  , in_comment(false)
+  , pending_slash(false)
   , cursor_index(0)
   , current_data_start(0)
   , line_context(4)
@@ -1910,6 +1916,8 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
+  in_comment = false;
+  pending_slash = false;
   resetForNewValue();
 }
 
@@ -2211,6 +2219,8 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       current_pos = cursor_index - 1;
       continue;
     }
+    if (JSON_STRUCT_UNLIKELY(slashEndsBuffer(json_data, current_pos)))
+      return Error::NeedMoreData;
 
     if (JSON_STRUCT_LIKELY(c == '"'))
     {
@@ -2310,6 +2320,8 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
       end = cursor_index - 1;
       continue;
     }
+    if (JSON_STRUCT_UNLIKELY(slashEndsBuffer(json_data, end)))
+      return Error::NeedMoreData;
 
     // Cache container type to avoid multiple back() calls
     Type container_type = container_stack.back();
@@ -2392,6 +2404,8 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
       end = cursor_index - 1;
       continue;
     }
+    if (JSON_STRUCT_UNLIKELY(slashEndsBuffer(json_data, end)))
+      return Error::NeedMoreData;
 
     if (JSON_STRUCT_LIKELY(c == ','))
     {
@@ -2427,6 +2441,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
 
 inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahead)
 {
+  in_comment = false;
 #ifdef JSON_STRUCT_HAS_NEON
   if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16 && !allow_new_lines))
   {
@@ -2469,9 +2484,67 @@ inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahea
     }
     return Error::NoError;
   }
+  in_comment = true;
   return Error::NeedMoreData;
 }
 
+// A '/' in the last position may be the first half of a "//" that continues in the next buffer
+inline bool Tokenizer::slashEndsBuffer(const DataRef &json_data, size_t pos)
+{
+  if (JSON_STRUCT_LIKELY(!allow_comments || json_data.data[pos] != '/' || pos + 1 != json_data.size))
+    return false;
+  pending_slash = true;
+  return true;
+}
+
+// Resume after a buffer that ended inside a comment, or with a '/'
+inline Error Tokenizer::continueComment(const DataRef &json_data)
+{
+  if (pending_slash && json_data.size)
+  {
+    pending_slash = false;
+    if (json_data.data[cursor_index] == '/')
+    {
+      cursor_index++;
+      in_comment = true;
+    }
+    else if (token_state == InTokenState::FindingDelimiter)
+    {
+      return Error::ExpectedDelimiter;
+    }
+    else if (token_state == InTokenState::FindingTokenEnd)
+    {
+      return Error::InvalidToken;
+    }
+    else if (!allow_ascii_properties)
+    {
+      return Error::EncounteredIllegalChar;
+    }
+    else
+    {
+      const bool is_name = token_state == InTokenState::FindingName;
+      (is_name ? intermediate_token.name : intermediate_token.data) = "/";
+      (is_name ? intermediate_token.name_type : intermediate_token.data_type) = Type::Ascii;
+      if (is_name)
+        intermediate_token.name_type_set = true;
+      else
+        intermediate_token.data_type_set = true;
+      intermediate_token.active = true;
+      property_type = Type::Ascii;
+      property_state = InPropertyState::FindingEnd;
+    }
+  }
+  if (in_comment)
+  {
+    size_t comment_skip = 0;
+    Error error = skipComment(json_data, &comment_skip);
+    if (error != Error::NoError)
+      return error;
+    cursor_index += comment_skip;
+  }
+  return Error::NoError;
+}
+
 inline void Tokenizer::requestMoreData()
 {
   if (need_more_data_callback)
@@ -2632,6 +2705,12 @@ inline size_t strnlen(const char *data, size_t size)
 inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const DataRef &json_data)
 {
   Token tmp_token;
+  if (JSON_STRUCT_UNLIKELY(in_comment || pending_slash))
+  {
+    Error comment_error = continueComment(json_data);
+    if (comment_error != Error::NoError)
+      return comment_error;
+  }
   while (cursor_index < json_data.size)
   {
     size_t diff = 0;
-- 
2.43.0


From 82ae479b6cac53fd3a9a5c900f98e98510185b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 08/52] fix: nesting deeper than 255 no longer loses closing
 brackets when serializing

---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 52f5db7..ca04d0c 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1487,7 +1487,7 @@ public:
   bool convertAsciiToString() const;
   void setConvertAsciiToString(bool set);
 
-  unsigned char depth() const;
+  int depth() const;
   void setDepth(int depth);
 
   void skipDelimiter(bool skip);
@@ -1499,7 +1499,7 @@ public:
 
 private:
   uint8_t m_shift_size;
-  uint8_t m_depth;
+  int m_depth;
   Style m_style;
   bool m_convert_ascii_to_string;
 
@@ -3216,7 +3216,7 @@ inline void SerializerOptions::setShiftSize(unsigned char set)
   m_shift_size = set;
 }
 
-inline unsigned char SerializerOptions::depth() const
+inline int SerializerOptions::depth() const
 {
   return m_depth;
 }
@@ -3254,7 +3254,7 @@ inline void SerializerOptions::skipDelimiter(bool skip)
 
 inline void SerializerOptions::setDepth(int depth)
 {
-  m_depth = (unsigned char)depth;
+  m_depth = depth;
   m_prefix = m_style == Pretty ? std::string(depth * size_t(m_shift_size), ' ') : std::string();
 }
 
-- 
2.43.0


From 51e4b5445870e8837b836bfd3095f735ce24d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 09/52] fix: write the empty property name of an object member

---
 include/json_struct/json_struct.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ca04d0c..9d39a8a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1573,6 +1573,7 @@ private:
   bool m_first;
   bool m_token_start;
   SerializerOptions m_option;
+  std::vector<bool> m_in_object; // one entry for every container that is open
 };
 
 // IMPLEMENTATION
@@ -3410,9 +3411,11 @@ inline bool Serializer::write(const Token &in_token)
       if (!write(m_option.prefix()))
         return false;
   }
-  if (token.name.size)
+  // The members of an object always have a name, even if it is the empty string.
+  const bool in_object = !m_in_object.empty() && m_in_object.back();
+  if (token.name.size || (in_object && !isEnd))
   {
-    if (!write(token.name_type, token.name))
+    if (!write(token.name.size ? token.name_type : Type::String, token.name))
       return false;
 
     if (m_option.style() == SerializerOptions::Pretty)
@@ -3434,6 +3437,11 @@ inline bool Serializer::write(const Token &in_token)
   if (m_token_start)
   {
     m_option.setDepth(m_option.depth() + 1);
+    m_in_object.push_back(token.value_type == Type::ObjectStart);
+  }
+  else if (isEnd && !m_in_object.empty())
+  {
+    m_in_object.pop_back();
   }
   return true;
 }
-- 
2.43.0


From ad5c59a920875cd98301f8e1a13af01385e9719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 10/52] fix: do not read past the end of an empty or used up
 token vector

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9d39a8a..1f8e6b4 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1701,6 +1701,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
   }
   if (parsed_data_vector)
   {
+    if (cursor_index >= parsed_data_vector->size())
+      return Error::NeedMoreData;
     next_token = (*parsed_data_vector)[cursor_index];
     cursor_index++;
     if (cursor_index == parsed_data_vector->size())
-- 
2.43.0


From f79492f45583abd5c6151cba1e61bd830c169b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 11/52] fix: raw JSON capture is dropped cleanly when the input
 has an error, and replaces earlier content

---
 include/json_struct/json_struct.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1f8e6b4..649ae24 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1818,8 +1818,8 @@ inline void Tokenizer::copyIncludingValue(const Token &, std::string &to_buffer)
     std::find_if(copy_buffers.begin(), copy_buffers.end(),
                  [&to_buffer](const std::pair<size_t, std::string *> &pair) { return &to_buffer == pair.second; });
   assert(it != copy_buffers.end());
-  assert(it->first <= cursor_index);
-  if (cursor_index - it->first != 0)
+  // After an error there might be no buffer left, or the cursor might be behind the start of the copy
+  if (data_list.size() && cursor_index > it->first)
     to_buffer.append(data_list.front().data + it->first, cursor_index - it->first);
   copy_buffers.erase(it);
 }
@@ -9369,6 +9369,7 @@ struct TypeHandler<JsonArray>
     if (context.token.value_type != JS::Type::ArrayStart)
       return Error::ExpectedArrayStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9382,8 +9383,7 @@ struct TypeHandler<JsonArray>
         level--;
     }
 
-    if (error == JS::Error::NoError)
-      context.tokenizer.copyIncludingValue(context.token, to_type.data);
+    context.tokenizer.copyIncludingValue(context.token, to_type.data);
 
     return error;
   }
@@ -9448,6 +9448,7 @@ struct TypeHandler<JsonObject>
     if (context.token.value_type != JS::Type::ObjectStart)
       return Error::ExpectedObjectStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9554,6 +9555,7 @@ struct TypeHandler<JsonObjectOrArray>
       return Error::ExpectedObjectStart;
     }
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
-- 
2.43.0


From dcdb0689b114968b252dc9100833bd3b7a575b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 12/52] fix: no bogus range in JsonObjectRef and friends when
 the input has an error

---
 include/json_struct/json_struct.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 649ae24..d058f4a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9347,6 +9347,11 @@ struct TypeHandler<JsonArrayRef>
         level--;
     }
 
+    if (error != JS::Error::NoError)
+    {
+      to_type.ref = DataRef();
+      return error;
+    }
     to_type.ref.size = size_t(context.token.value.data + context.token.value.size - to_type.ref.data);
 
     return error;
@@ -9427,6 +9432,11 @@ struct TypeHandler<JsonObjectRef>
         level--;
     }
 
+    if (error != JS::Error::NoError)
+    {
+      to_type.ref = DataRef();
+      return error;
+    }
     to_type.ref.size = size_t(context.token.value.data + context.token.value.size - to_type.ref.data);
     return error;
   }
@@ -9520,6 +9530,11 @@ struct TypeHandler<JsonObjectOrArrayRef>
         level--;
     }
 
+    if (error != JS::Error::NoError)
+    {
+      to_type.ref = DataRef();
+      return error;
+    }
     to_type.ref.size = size_t(context.token.value.data + context.token.value.size - to_type.ref.data);
     return error;
   }
-- 
2.43.0


From f4392fdd64abd99146aee139d018b1ec4117ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 13/52] fix: reject enum numbers that are outside of the enum

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index d058f4a..7560df4 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5927,6 +5927,8 @@ struct EnumHandler
       auto err = TypeHandler<enum_int_t>::to(tmp, context);
       if (err != Error::NoError)
         return err;
+      if (tmp < 0 || size_t(tmp) >= F::strings().size())
+        return Error::IllegalDataValue;
       to_type = static_cast<T>(tmp);
       return Error::NoError;
     }
-- 
2.43.0


From 192cef189d67937a2d666589b88a079ee4350965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 14/52] fix: do not read indeterminate low surrogate digits

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7560df4..e4abf94 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6020,7 +6020,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
         // which 4 are the current hex digits, so a trailing "\uXXXX" needs 6 more.
         if (cp >= 0xD800 && cp <= 0xDBFF && size >= 10 && next_it[6] == '\\' && next_it[7] == 'u')
         {
-          unsigned char lo[4];
+          unsigned char lo[4] = {0, 0, 0, 0};
           bool lo_ok = true;
           for (int k = 0; lo_ok && k < 4; k++)
           {
-- 
2.43.0


From bc11e17375f5ef6e29440aeafaa7236c050b1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 15/52] fix: escape all control characters in serialized
 strings

---
 include/json_struct/json_struct.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e4abf94..df34e62 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6091,7 +6091,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
 }
 
 // Returns the offset of the first character in [data, data+len) that needs
-// JSON string escaping (byte <= 0x0d, '"', or '\\'), or len if none. The clean
+// JSON string escaping (byte <= 0x1f, '"', or '\\'), or len if none. The clean
 // (no-escape) run is by far the common case, so scan it with SIMD when possible.
 static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUCT_RESTRICT data, size_t len)
 {
@@ -6100,7 +6100,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m256i vquote = _mm256_set1_epi8('"');
     const __m256i vbackslash = _mm256_set1_epi8('\\');
-    const __m256i vctrl = _mm256_set1_epi8(0x0d);
+    const __m256i vctrl = _mm256_set1_epi8(0x1f);
     for (; i + 32 <= len; i += 32)
     {
       __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(data + i));
@@ -6117,7 +6117,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m128i vquote = _mm_set1_epi8('"');
     const __m128i vbackslash = _mm_set1_epi8('\\');
-    const __m128i vctrl = _mm_set1_epi8(0x0d);
+    const __m128i vctrl = _mm_set1_epi8(0x1f);
     for (; i + 16 <= len; i += 16)
     {
       __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(data + i));
@@ -6134,7 +6134,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   for (; i < len; i++)
   {
     unsigned char c = static_cast<unsigned char>(data[i]);
-    if (c <= 0x0d || c == '"' || c == '\\')
+    if (c <= 0x1f || c == '"' || c == '\\')
       return i;
   }
   return len;
@@ -6185,8 +6185,10 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
     case '\\':
       buffer.append("\\\\", 2);
       break;
-    default:
-      buffer.push_back(cur);
+    default: // control characters without a short escape
+      buffer.append("\\u00", 4);
+      buffer.push_back("0123456789abcdef"[(static_cast<unsigned char>(cur) >> 4) & 0xf]);
+      buffer.push_back("0123456789abcdef"[static_cast<unsigned char>(cur) & 0xf]);
       break;
     }
     i++;
-- 
2.43.0


From 712a49c7709630c13a813d0373c9904411982337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 16/52] fix: stay in sync when a JSON object or array is parsed
 into a std::string

---
 include/json_struct/json_struct.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index df34e62..adf143c 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6210,8 +6210,16 @@ struct TypeHandler<std::string>
 {
   static inline Error to(std::string &to_type, ParseContext &context)
   {
+    if (context.token.value_type == Type::ObjectEnd || context.token.value_type == Type::ArrayEnd)
+      return Error::IllegalDataValue;
     to_type.clear();
     Internal::handle_json_escapes_in(context.token.value, to_type);
+    if (context.token.value_type == Type::ObjectStart || context.token.value_type == Type::ArrayStart)
+    {
+      // Leave the tokenizer after the container, its content does not belong to the enclosing type.
+      Internal::skipArrayOrObject(context);
+      return context.error;
+    }
     return Error::NoError;
   }
 
-- 
2.43.0


From 0fe5854cbe57535caa46bdab4c006851fedbcee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 17/52] fix: keep the magnitude of numbers with many digits and
 do not divide by zero on leading zeros

---
 include/json_struct/json_struct.h | 67 ++++++++++++++-----------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index adf143c..a841fb2 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8022,13 +8022,15 @@ inline bool is_space(char a)
   return false;
 }
 
-template <typename T, bool NoDigitCount>
+template <typename T>
 inline parse_string_error parseNumber(const char *number, size_t size, parsed_string<T> &parsedString)
 {
   const char *current;
   set_end_ptr<T> setendptr(parsedString, current);
-  int desimal_position = -1;
+  bool has_desimal_point = false;
+  bool has_digits = false;
   bool increase_significand = true;
+  int digit_exponent = 0; // power of ten the significand has to be scaled with to give the value of the digits
 
   parsedString.negative = false;
   parsedString.inf = 0;
@@ -8056,43 +8058,37 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 
     if (c == '.')
     {
-      if (desimal_position >= 0)
+      if (has_desimal_point)
         return parse_string_error::multiple_commas;
-      desimal_position = parsedString.significand_digit_count;
+      has_desimal_point = true;
     }
     else
     {
-      bool keep_digit = NoDigitCount;
-      if (!keep_digit)
-        keep_digit = parsedString.significand_digit_count < 19;
-      if (keep_digit)
+      has_digits = true;
+      const T digit = T(int(c) - '0');
+      if (increase_significand && parsedString.significand > T(T(~T(0)) - digit) / T(10))
+        increase_significand = false;
+      if (increase_significand)
       {
-        parsedString.significand = parsedString.significand * T(10) + T(int(c) - '0');
-        parsedString.significand_digit_count++;
+        parsedString.significand = parsedString.significand * T(10) + digit;
+        if (parsedString.significand != 0)
+          parsedString.significand_digit_count++;
+        if (has_desimal_point)
+          digit_exponent--;
       }
-      else if (increase_significand && parsedString.significand_digit_count < 20)
+      else if (!has_desimal_point)
       {
-        increase_significand = false;
-        uint64_t digit = uint64_t(c) - '0';
-        static_assert(NoDigitCount || std::is_same<T, uint64_t>::value,
-                      "When NoDigitCount is used the significand type has to be uint64_t");
-        auto biggest_multiplier = (std::numeric_limits<uint64_t>::max() - digit) / parsedString.significand;
-
-        if (biggest_multiplier >= 10)
-        {
-          parsedString.significand = parsedString.significand * uint64_t(10) + digit;
-          parsedString.significand_digit_count++;
-        }
+        // The digit does not fit in the significand, but it still scales the value.
+        digit_exponent++;
       }
     }
     current++;
   }
+  if (!has_digits)
+    return parse_string_error::invalid_format;
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
-    if (desimal_position >= 0)
-      parsedString.exp = desimal_position - parsedString.significand_digit_count;
-    else
-      parsedString.exp = 0;
+    parsedString.exp = digit_exponent;
     return parse_string_error::ok;
   }
   current++;
@@ -8133,10 +8129,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   if (exponent_nagative)
     exponent = -exponent;
 
-  if (desimal_position >= 0)
-    parsedString.exp = desimal_position - parsedString.significand_digit_count + exponent;
-  else
-    parsedString.exp = exponent;
+  parsedString.exp = digit_exponent + exponent;
   return parse_string_error::ok;
 }
 
@@ -8168,6 +8161,10 @@ inline uint64_t getPow10(uint32_t pow)
 template <typename T, typename SignificandType>
 inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 {
+  if (parsed.significand == 0)
+  {
+    return make_zero<T>(parsed.negative);
+  }
   int base10exponent = parsed.exp + parsed.significand_digit_count - 1;
   if (base10exponent > float_info<T>::max_base10_exponent())
   {
@@ -8177,10 +8174,6 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   {
     return make_zero<T>(parsed.negative);
   }
-  if (parsed.significand == 0)
-  {
-    return make_zero<T>(parsed.negative);
-  }
 
 #if 1
   if (parsed.significand < ((uint64_t(1) << 53)) && iabs<int>(parsed.exp) < count_chars((uint64_t(1) << 53)))
@@ -8379,7 +8372,7 @@ inline parse_string_error to_integer(const char *str, size_t size, T &target, co
   using SignificandType =
     typename std::conditional<sizeof(T) <= sizeof(uint64_t), uint64_t, typename std::make_unsigned<T>::type>::type;
   parsed_string<SignificandType> ps;
-  auto parseResult = parseNumber<SignificandType, true>(str, size, ps);
+  auto parseResult = parseNumber<SignificandType>(str, size, ps);
   endptr = ps.endptr;
   if (parseResult != parse_string_error::ok)
   {
@@ -8636,7 +8629,7 @@ template <typename T>
 inline parse_string_error to_ieee_t(const char *str, size_t size, T &target, const char *(&endptr))
 {
   parsed_string<uint64_t> ps;
-  auto parseResult = parseNumber<uint64_t, false>(str, size, ps);
+  auto parseResult = parseNumber<uint64_t>(str, size, ps);
   endptr = ps.endptr;
   if (parseResult != parse_string_error::ok)
   {
@@ -8653,7 +8646,7 @@ template <>
 inline parse_string_error to_ieee_t<float>(const char *str, size_t size, float &target, const char *(&endptr))
 {
   parsed_string<uint64_t> ps;
-  auto parseResult = parseNumber<uint64_t, false>(str, size, ps);
+  auto parseResult = parseNumber<uint64_t>(str, size, ps);
   endptr = ps.endptr;
   if (parseResult != parse_string_error::ok)
   {
-- 
2.43.0


From 53cbfdff74dc22acd0e6293304644d1838fa9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 18/52] fix: saturate integers with an exponent or a sign that
 does not fit the type

---
 include/json_struct/json_struct.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a841fb2..03d66ca 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8324,8 +8324,10 @@ inline typename std::enable_if<std::is_signed<T>::value, T>::type make_integer_r
 
 template <typename T, typename SignificandType>
 inline typename std::enable_if<std::is_unsigned<T>::value, T>::type make_integer_return_value(
-  SignificandType significand, bool)
+  SignificandType significand, bool negative)
 {
+  if (negative)
+    return T(0);
   if (SignificandType(significand) > SignificandType(std::numeric_limits<T>::max()))
     return std::numeric_limits<T>::max();
   return T(significand);
@@ -8352,13 +8354,12 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
       exp++;
     }
   }
-  else if (exp > 0)
+  else if (exp > 0 && significand != 0)
   {
-    int chars_in_sig = count_chars(significand);
-    if (exp > ft::StaticLog10<T, std::numeric_limits<T>::max(), 0, 0, true>::get() - chars_in_sig)
-      return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
     while (exp > 0)
     {
+      if (significand > SignificandType(~SignificandType(0)) / 10)
+        return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
       significand *= 10;
       exp--;
     }
-- 
2.43.0


From 42cb10f07e099275af4fbf774f5820cb3289ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 19/52] fix: token vectors do not keep old tokens, or a stale
 token after an error

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 03d66ca..20b81a4 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9285,6 +9285,7 @@ public:
   {
     if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
     {
+      to_type.clear();
       to_type.push_back(context.token);
       return context.error;
     }
@@ -9296,6 +9297,8 @@ public:
     while (error == JS::Error::NoError && level)
     {
       error = context.nextToken();
+      if (error != JS::Error::NoError)
+        break;
       to_type.push_back(context.token);
       if (context.token.value_type == Type::ArrayStart || context.token.value_type == Type::ObjectStart)
         level++;
-- 
2.43.0


From fa12cff03f337ed4fb7c92f46060e55895143048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 20/52] fix: OneOrMany replaces its content when parsing a
 single value

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 20b81a4..306ae74 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9793,6 +9793,7 @@ public:
     }
     else
     {
+      to_type.data.clear();
       to_type.data.push_back(T());
       context.error = TypeHandler<T>::to(to_type.data.back(), context);
     }
-- 
2.43.0


From 47575199a55e2a1aa357522069e74d7fc4cd164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 21/52] fix: map parsing ends on truncated input and does not
 insert values that failed to parse

---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 306ae74..b693426 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9876,10 +9876,12 @@ struct TypeHandlerMap
       Key key(str.data(), str.size());
       Value v;
       error = TypeHandler<Value>::to(v, context);
-      to_type[std::move(key)] = std::move(v);
       if (error != JS::Error::NoError)
         return error;
+      to_type[std::move(key)] = std::move(v);
       error = context.nextToken();
+      if (error != JS::Error::NoError)
+        return error;
     }
 
     return error;
-- 
2.43.0


From 168ffec8e182f44c2147921aa4b854ae7066abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 22/52] fix: escape the keys of serialized maps

---
 include/json_struct/json_struct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b693426..3229654 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9894,7 +9894,8 @@ struct TypeHandlerMap
     serializer.write(token);
     for (auto it = from.begin(); it != from.end(); ++it)
     {
-      token.name = DataRef(it->first);
+      std::string buffer;
+      token.name = Internal::handle_json_escapes_out(it->first, buffer);
       token.name_type = Type::String;
       TypeHandler<Value>::from(it->second, token, serializer);
     }
-- 
2.43.0


From 9478cf9f8ad070d4617a9106cb5280e29b84dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 23/52] fix: ArrayVariableContent has a size also when all
 elements are used

---
 include/json_struct/json_struct.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3229654..bb1087d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10253,20 +10253,19 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
     if (context.token.value_type != Type::ArrayStart)
       return JS::Error::ExpectedArrayStart;
 
+    to_type.size = 0;
     context.nextToken();
     for (size_t i = 0; i < COUNT; i++)
     {
       if (context.error != JS::Error::NoError)
         return context.error;
       if (context.token.value_type == Type::ArrayEnd)
-      {
-        to_type.size = i;
         break;
-      }
       context.error = TypeHandler<T>::to(to_type.data[i], context);
       if (context.error != JS::Error::NoError)
         return context.error;
 
+      to_type.size = i + 1;
       context.nextToken();
     }
 
-- 
2.43.0


From fdb030aec86baba82d8d47a6971deacabc6452b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:49 +0000
Subject: [PATCH 24/52] fix: saturate integers whose digits do not fit the
 significand

---
 include/json_struct/json_struct.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index bb1087d..092c710 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6254,6 +6254,7 @@ template <typename T>
 struct parsed_string : float_base10<T>
 {
   const char *endptr;
+  bool digits_dropped; // the significand has no room for all the digits
 };
 
 enum class parse_string_error
@@ -8038,6 +8039,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   parsedString.significand_digit_count = 0;
   parsedString.significand = 0;
   parsedString.exp = 0;
+  parsedString.digits_dropped = false;
 
   const char *number_end = number + size;
   current = find_if(number, number_end, [](const char a) { return !is_space(a); });
@@ -8076,10 +8078,12 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
         if (has_desimal_point)
           digit_exponent--;
       }
-      else if (!has_desimal_point)
+      else
       {
         // The digit does not fit in the significand, but it still scales the value.
-        digit_exponent++;
+        parsedString.digits_dropped = true;
+        if (!has_desimal_point)
+          digit_exponent++;
       }
     }
     current++;
@@ -8356,6 +8360,9 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
   }
   else if (exp > 0 && significand != 0)
   {
+    // With the dropped digit the significand is out of range already, without the scaling
+    if (parsed.digits_dropped)
+      return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
     while (exp > 0)
     {
       if (significand > SignificandType(~SignificandType(0)) / 10)
-- 
2.43.0


From e7dac370ccba972420243c62142bb23e2d681a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:58 +0000
Subject: [PATCH 25/52] fix: keep a leading underscore in the names of
 enumerators

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 092c710..28402e1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5687,7 +5687,7 @@ void populateEnumNames(std::vector<DataRef> &names, const char (&data)[N])
     switch (state)
     {
     case ParseEnumStringState::FindingNameStart:
-      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
+      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_')
       {
         name_starts_at = i;
         state = ParseEnumStringState::FindingNameEnd;
-- 
2.43.0


From d281d280c1f90860a9ca20774daba6b62a662a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:55 +0000
Subject: [PATCH 26/52] fix: Map::find does not return the end token, or read
 past an empty map

---
 include/json_struct/json_struct.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 28402e1..aa27d65 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10005,7 +10005,7 @@ struct Map
   inline It begin() const
   {
     It b(*this);
-    b.index = 1;
+    b.index = tokens.data.empty() ? 0 : 1;
     b.next_meta = 1;
     b.next_complex =
       b.next_meta < uint32_t(meta.size()) ? uint32_t(meta[b.next_meta].position) : uint32_t(tokens.data.size());
@@ -10023,8 +10023,10 @@ struct Map
 
   inline It find(const std::string &name) const
   {
-    return std::find_if(begin(), end(),
-                        [&name](const Token &token) { return Internal::compareDataRefWithString(token.name, name); });
+    return std::find_if(begin(), end(), [&name](const Token &token) {
+      return token.value_type != Type::ObjectEnd && token.value_type != Type::ArrayEnd &&
+             Internal::compareDataRefWithString(token.name, name);
+    });
   }
 
   template <typename T>
-- 
2.43.0


From acf98f6dd8d1da0c345ff857e439e06583feef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:55 +0000
Subject: [PATCH 27/52] fix: Map::setValue keeps the meta data in step with the
 tokens

---
 include/json_struct/json_struct.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index aa27d65..e849f17 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10143,6 +10143,10 @@ struct Map
         meta[0].size--;
         tokens.data.erase(tokens.data.begin() + it.index);
         tokens_removed = 1;
+        for (size_t i = it.next_meta; i < meta.size(); i++)
+        {
+          meta[i].position--;
+        }
       }
       {
         int index_to_remove = -1;
@@ -10181,12 +10185,16 @@ struct Map
     serializeContext.flush();
     JS::JsonTokens new_tokens;
     JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
+    if (new_tokens.data.size() <= 2) // An optional value that is not assigned writes nothing
+      return JS::Error::NoError;
     auto new_meta = metaForTokens(new_tokens);
 
     json_data.emplace_back(int(tokens.data.size() - 1), std::move(out));
     int old_tokens_size = int(tokens.data.size());
     tokens.data.insert(tokens.data.end() - 1, new_tokens.data.begin() + 1, new_tokens.data.end() - 1);
     meta[0].children++;
+    if (new_meta[0].has_data)
+      meta[0].has_data = true;
     if (new_meta[0].complex_children)
     {
       meta[0].complex_children++;
-- 
2.43.0


From e8293490a8128d0270ee4855eab9050f7eaeb69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:55 +0000
Subject: [PATCH 28/52] fix: Map::setValue does not add a named value to an
 array

---
 include/json_struct/json_struct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e849f17..385acce 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10115,6 +10115,10 @@ struct Map
       tokens.data.push_back(token);
       meta = JS::metaForTokens(tokens);
     }
+    else if (tokens.data.front().value_type != JS::Type::ObjectStart)
+    {
+      return JS::Error::ExpectedObjectStart;
+    }
 
     auto it = find(name);
     if (it != end())
-- 
2.43.0


From 9f9ee8bf9e8783ee5763ab4fb02b2fd9b011be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:55 +0000
Subject: [PATCH 29/52] fix: Map escapes and unescapes the names of its values

---
 include/json_struct/json_struct.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 385acce..4a77615 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9927,6 +9927,12 @@ namespace Internal
 {
 inline bool compareDataRefWithString(const DataRef &a, const std::string &b)
 {
+  if (JSON_STRUCT_UNLIKELY(a.size && memchr(a.data, '\\', a.size)))
+  {
+    std::string unescaped;
+    handle_json_escapes_in(a, unescaped);
+    return unescaped == b;
+  }
   return a.size == b.size() && memcmp(a.data, b.data(), a.size) == 0;
 }
 } // namespace Internal
@@ -10177,7 +10183,8 @@ struct Map
     token.value = DataRef(objectStart);
     serializeContext.serializer.write(token);
 
-    token.name = DataRef(name);
+    std::string escaped_name;
+    token.name = Internal::handle_json_escapes_out(name, escaped_name);
     token.name_type = Type::String;
     JS::TypeHandler<T>::from(value, token, serializeContext.serializer);
 
-- 
2.43.0


From e2f991ec4bb56b6fc312a6d79e3eaf7aed47ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:55 +0000
Subject: [PATCH 30/52] fix: Map::castTo reports its error in the parse context

---
 include/json_struct/json_struct.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4a77615..ca134ed 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10039,8 +10039,9 @@ struct Map
   JS::Error castToType(JS::ParseContext &parseContext, T &to) const
   {
     parseContext.tokenizer.resetData(&tokens.data, 0);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() == JS::Error::NoError)
+      parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
@@ -10048,8 +10049,9 @@ struct Map
   {
     assert(iterator.index < tokens.data.size());
     parseContext.tokenizer.resetData(&tokens.data, iterator.index);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() == JS::Error::NoError)
+      parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
-- 
2.43.0


From b7d3ca9bd72d11121068ed27e7d4bc1040009ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 31/52] fix: resetData forgets the state of the previous
 document

---
 include/json_struct/json_struct.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ca134ed..5ffabeb 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1404,6 +1404,7 @@ private:
     FoundEnd
   };
 
+  void resetForNewDocument();
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1660,7 +1661,7 @@ inline void Tokenizer::resetData(const char *data, size_t size, size_t index)
   parsed_data_vector = nullptr;
   cursor_index = index;
   addData(data, size);
-  resetForNewToken();
+  resetForNewDocument();
 }
 
 inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t index)
@@ -1673,7 +1674,7 @@ inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t in
   data_list.clear();
   parsed_data_vector = parsedData;
   cursor_index = index;
-  resetForNewToken();
+  resetForNewDocument();
 }
 
 inline size_t Tokenizer::registeredBuffers() const
@@ -1916,6 +1917,20 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
   range_context = rangeContext;
 }
 
+// Forget what an earlier document, that may have ended anywhere, left behind
+inline void Tokenizer::resetForNewDocument()
+{
+  token_state = InTokenState::FindingName;
+  is_escaped = false;
+  expecting_prop_or_anonymous_data = false;
+  continue_after_need_more_data = false;
+  container_stack.clear();
+  scope_counter.clear();
+  copy_buffers.clear();
+  error_context.clear();
+  resetForNewToken();
+}
+
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
-- 
2.43.0


From 61498fae0460d8bf42ee8176e599da61e3237851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 32/52] fix: a Map is empty after its input could not be parsed

---
 include/json_struct/json_struct.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5ffabeb..3ad2e6a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10255,6 +10255,11 @@ struct TypeHandler<Map>
     {
       to_type.meta = metaForTokens(to_type.tokens);
     }
+    else
+    {
+      to_type.tokens.data.clear();
+      to_type.meta.clear();
+    }
 
     return error;
   }
-- 
2.43.0


From 70a5c31241024d4b8eeb18f694e3e0e695899f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 33/52] fix: callFunctions returns the error of truncated or
 malformed arguments

---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3ad2e6a..bb4f3f9 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5599,7 +5599,12 @@ inline Error CallFunctionContext::callFunctions(T &container)
       parse_context.error = error;
     }
     Internal::add_error(execution_list.back(), parse_context);
-    parse_context.tokenizer.goToEndOfScope(parse_context.token);
+    const Error scope_error = parse_context.tokenizer.goToEndOfScope(parse_context.token);
+    if (scope_error != Error::NoError)
+    {
+      parse_context.error = scope_error;
+      return scope_error;
+    }
     parse_context.tokenizer.popScope();
     if (error == Error::MissingFunction && allow_missing)
       error = Error::NoError;
-- 
2.43.0


From 968ddab0a2d76d466ee319ad6e90723e8a640aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 34/52] fix: do not write a double just below its rounding
 interval (2^-140)

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index bb4f3f9..6eace23 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -7628,7 +7628,7 @@ inline void compute_shortest(uint64_t a, uint64_t b, uint64_t c, bool accept_sma
 
   bool is_tie = b_remainder == 5 && all_b_zero;
   bool want_to_round_down = b_remainder < 5 || (is_tie && break_tie_down);
-  bool round_down = (want_to_round_down && (a != b || all_a_zero)) || (b + 1 > c);
+  bool round_down = (want_to_round_down && (a != b || (accept_smaller && all_a_zero))) || (b + 1 > c);
   if (round_down)
   {
     shortest_base10 = b;
-- 
2.43.0


From 162a247c3a7179346b94b504fe1ffb88d7fbc374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 35/52] fix: JsonObjectRef and friends report
 NonContigiousMemory when the value spans buffers

---
 include/json_struct/json_struct.h | 36 ++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6eace23..ec3d48e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1375,6 +1375,7 @@ public:
 
   void copyFromValue(const Token &token, std::string &to_buffer);
   void copyIncludingValue(const Token &token, std::string &to_buffer);
+  bool isContiguous(const char *begin, const char *end) const;
 
   void pushScope(JS::Type type);
   void popScope();
@@ -1825,6 +1826,17 @@ inline void Tokenizer::copyIncludingValue(const Token &, std::string &to_buffer)
   copy_buffers.erase(it);
 }
 
+// A range that starts and ends in tokens from different buffers is not the text between them
+inline bool Tokenizer::isContiguous(const char *begin, const char *end) const
+{
+  if (begin > end)
+    return false;
+  if (data_list.empty())
+    return true;
+  const DataRef &buffer = data_list.front();
+  return begin >= buffer.data && end <= buffer.data + buffer.size;
+}
+
 inline void Tokenizer::pushScope(JS::Type type)
 {
   scope_counter.push_back({type, 1});
@@ -9388,7 +9400,13 @@ struct TypeHandler<JsonArrayRef>
       to_type.ref = DataRef();
       return error;
     }
-    to_type.ref.size = size_t(context.token.value.data + context.token.value.size - to_type.ref.data);
+    const char *end = context.token.value.data + context.token.value.size;
+    if (!context.tokenizer.isContiguous(to_type.ref.data, end))
+    {
+      to_type.ref = DataRef();
+      return Error::NonContigiousMemory;
+    }
+    to_type.ref.size = size_t(end - to_type.ref.data);
 
     return error;
   }
@@ -9473,7 +9491,13 @@ struct TypeHandler<JsonObjectRef>
       to_type.ref = DataRef();
       return error;
     }
-    to_type.ref.size = size_t(context.token.value.data + context.token.value.size - to_type.ref.data);
+    const char *end = context.token.value.data + context.token.value.size;
+    if (!context.tokenizer.isContiguous(to_type.ref.data, end))
+    {
+      to_type.ref = DataRef();
+      return Error::NonContigiousMemory;
+    }
+    to_type.ref.size = size_t(end - to_type.ref.data);
     return error;
   }
 
@@ -9571,7 +9595,13 @@ struct TypeHandler<JsonObjectOrArrayRef>
       to_type.ref = DataRef();
       return error;
     }
-    to_type.ref.size = size_t(context.token.value.data + context.token.value.size - to_type.ref.data);
+    const char *end = context.token.value.data + context.token.value.size;
+    if (!context.tokenizer.isContiguous(to_type.ref.data, end))
+    {
+      to_type.ref = DataRef();
+      return Error::NonContigiousMemory;
+    }
+    to_type.ref.size = size_t(end - to_type.ref.data);
     return error;
   }
 
-- 
2.43.0


From 46c783cb585a3b9601c91a3f168a2addcd4ead58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 36/52] fix: JsonObject and friends can be parsed from tokens

---
 include/json_struct/json_struct.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ec3d48e..9f42b52 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1376,6 +1376,7 @@ public:
   void copyFromValue(const Token &token, std::string &to_buffer);
   void copyIncludingValue(const Token &token, std::string &to_buffer);
   bool isContiguous(const char *begin, const char *end) const;
+  bool isParsingTokens() const;
 
   void pushScope(JS::Type type);
   void popScope();
@@ -1837,6 +1838,11 @@ inline bool Tokenizer::isContiguous(const char *begin, const char *end) const
   return begin >= buffer.data && end <= buffer.data + buffer.size;
 }
 
+inline bool Tokenizer::isParsingTokens() const
+{
+  return parsed_data_vector != nullptr;
+}
+
 inline void Tokenizer::pushScope(JS::Type type)
 {
   scope_counter.push_back({type, 1});
@@ -9373,6 +9379,20 @@ public:
   }
 };
 
+namespace Internal
+{
+// There is no text to copy from when the input is tokens, so the text of the value is written from them.
+inline Error copyParsedTokens(std::string &to_buffer, ParseContext &context)
+{
+  std::vector<Token> tokens;
+  Error error = TypeHandler<std::vector<Token>>::to(tokens, context);
+  tokens.front().name = DataRef();
+  to_buffer = error == Error::NoError ? serializeStruct(tokens, SerializerOptions(SerializerOptions::Compact))
+                                      : std::string();
+  return error;
+}
+} // namespace Internal
+
 /// \private
 template <>
 struct TypeHandler<JsonArrayRef>
@@ -9428,6 +9448,9 @@ struct TypeHandler<JsonArray>
     if (context.token.value_type != JS::Type::ArrayStart)
       return Error::ExpectedArrayStart;
 
+    if (context.tokenizer.isParsingTokens())
+      return Internal::copyParsedTokens(to_type.data, context);
+
     to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
@@ -9518,6 +9541,9 @@ struct TypeHandler<JsonObject>
     if (context.token.value_type != JS::Type::ObjectStart)
       return Error::ExpectedObjectStart;
 
+    if (context.tokenizer.isParsingTokens())
+      return Internal::copyParsedTokens(to_type.data, context);
+
     to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
@@ -9636,6 +9662,9 @@ struct TypeHandler<JsonObjectOrArray>
       return Error::ExpectedObjectStart;
     }
 
+    if (context.tokenizer.isParsingTokens())
+      return Internal::copyParsedTokens(to_type.data, context);
+
     to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
-- 
2.43.0


From d96329300c22164535958fd816f1610a47307017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:21 +0000
Subject: [PATCH 37/52] fix: reformat reports a document that is cut off

---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9f42b52..b7427ef 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3061,15 +3061,20 @@ static inline JS::Error reformat(const char *data, size_t size, std::string &out
     out.resize(4096);
   serializer.setBuffer(&out[0], out.size());
 
+  size_t level = 0;
   while (error == Error::NoError)
   {
     error = tokenizer.nextToken(token);
     if (error != Error::NoError)
       break;
+    if (token.value_type == Type::ObjectStart || token.value_type == Type::ArrayStart)
+      level++;
+    else if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
+      level--;
     serializer.write(token);
   }
   out.resize(last_pos + serializer.currentBuffer().used);
-  if (error == Error::NeedMoreData)
+  if (error == Error::NeedMoreData && level == 0)
     return Error::NoError;
 
   return error;
-- 
2.43.0


From 81450229ded9bd93ed40747c8b8b38952021fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:21 +0000
Subject: [PATCH 38/52] fix: setStyle(Compact) gives compact output

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b7427ef..e87a597 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3377,7 +3377,7 @@ inline bool Serializer::write(const Token &in_token)
   }
 
   bool shortcut_front = false;
-  if (m_option.shiftSize() == 2 && !m_first)
+  if (m_option.style() == SerializerOptions::Pretty && m_option.shiftSize() == 2 && !m_first)
   {
     if (!m_token_start && !isEnd && m_option.tokenDelimiter().empty())
     {
-- 
2.43.0


From aea31c53a10a5c800deb4caf8c0e3a482b54606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:06 +0000
Subject: [PATCH 39/52] fix: missing array items of an earlier diff are
 forgotten when the base changes

---
 include/json_struct/json_struct_diff.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index f580e16..cb4e50a 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -118,6 +118,7 @@ struct DiffTokens
     void invalidate()
     {
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         error = DiffError::NoError;
         diff_count = 0;
@@ -128,6 +129,7 @@ struct DiffTokens
     {
         tokens.data.clear();
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         meta.clear();
         error = DiffError::NoError;
-- 
2.43.0


From 8e67b3ffb2c016483d6bcf514b6b9669a65ba489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:24 +0000
Subject: [PATCH 40/52] fix: diffing numbers outside the range of double does
 not throw

---
 include/json_struct/json_struct_diff.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index cb4e50a..d1f0224 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -439,6 +439,8 @@ namespace Internal
 
         inline bool fuzzyEquals(double d1, double d2, double epsilon)
         {
+            if (d1 == d2)//-V550 Also for infinities, whose difference is not a number
+                return true;
             double diff = d2 - d1;
             return diff > 0 ? (diff <= epsilon) : (-diff <= epsilon);
         }
@@ -453,8 +455,19 @@ namespace Internal
 
         inline void diffNumberValues(const Token &baseToken, const Token &diffToken, DiffTokens &diff, const size_t diffPos, const DiffOptions &options)
         {
-            double baseValue = std::stod(std::string(baseToken.value.data, baseToken.value.size));
-            double diffValue = std::stod(std::string(diffToken.value.data, diffToken.value.size));
+            double baseValue = 0;
+            double diffValue = 0;
+            ParseContext dummyContext;
+
+            dummyContext.token = baseToken;
+            const Error baseError = TypeHandler<double>::to(baseValue, dummyContext);
+            dummyContext.token = diffToken;
+            const Error diffError = TypeHandler<double>::to(diffValue, dummyContext);
+            if (baseError != Error::NoError || diffError != Error::NoError)
+            {
+                diffStringValues(baseToken, diffToken, diff, diffPos);
+                return;
+            }
 
             if (options.flags & DiffFlags::FuzzyFloatComparison)
             {
-- 
2.43.0


From 4d834b9fd59dc46800c366ed20d127a2cf66b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:24 +0000
Subject: [PATCH 41/52] fix: all new array items are marked when the first of
 them is an array

---
 include/json_struct/json_struct_diff.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index d1f0224..0c99d7e 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -702,15 +702,10 @@ namespace Internal
                     // New items in array.
                     if (baseToken.value_type == Type::ArrayEnd)
                     {
-                        int arrayEndCount = 0;
-                        while (arrayEndCount >= 0)
+                        while (diff.tokens.data[dPos].value_type != Type::ArrayEnd)
                         {
-                            diff.set(dPos++, DiffType::NewArrayItem);
-                            const Token& dToken = diff.tokens.data[dPos];
-                            if (dToken.value_type == Type::ArrayStart)
-                                arrayEndCount++;
-                            else if (dToken.value_type == Type::ArrayEnd)
-                                arrayEndCount--;
+                            setStateForEntireToken(diff, dPos, DiffType::NewArrayItem);
+                            diff.skip(&dPos);
                         }
                         arrayDiffDone = true;
                     }
-- 
2.43.0


From 4e4c0d7036a7fd7c863874d8fc0a974969200c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:24 +0000
Subject: [PATCH 42/52] fix: an empty document can be diffed after changeBase

---
 include/json_struct/json_struct_diff.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 0c99d7e..63dbb66 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -750,12 +750,8 @@ namespace Internal
             }
             else if (base.tokens.data.size() && diff.tokens.data.empty())
             {
-                if (base.tokens.data[0].value_type == Type::ObjectStart)
-                    diff.addMissingMembers(0, base, 0);
-                else if (base.tokens.data[0].value_type == Type::ArrayStart)
-                    diff.addMissingArrayItems(0, base, 0);
-                else
-                    setStateForEntireToken(diff, 0, DiffType::ErroneousRootItem);
+                // There is no token in the diff that could be marked.
+                diff.diff_count++;
             }
             else
             {
-- 
2.43.0


From 7115feee867ccb6ea8fa1ea4495ffd670d5b256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:48 +0000
Subject: [PATCH 43/52] fix: names and strings with a null character are
 compared completely

---
 include/json_struct/json_struct_diff.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 63dbb66..35f2177 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -424,7 +424,7 @@ namespace Internal
         {
             return (base.name_type == diff.name_type)
                 && (base.name.size == diff.name.size)
-                && (strncmp(base.name.data, diff.name.data, base.name.size) == 0);
+                && (memcmp(base.name.data, diff.name.data, base.name.size) == 0);
         }
 
         inline bool isSameValueType(const Token &base, const Token &diff)
@@ -434,7 +434,7 @@ namespace Internal
 
         inline bool stringValuesEqual(const DataRef &base, const DataRef &diff)
         {
-            return (base.size == diff.size) && (strncmp(base.data, diff.data, base.size) == 0);
+            return (base.size == diff.size) && (memcmp(base.data, diff.data, base.size) == 0);
         }
 
         inline bool fuzzyEquals(double d1, double d2, double epsilon)
-- 
2.43.0


From 06792f46609a221ee768a4102a3cc49d79fc72ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:19 +0000
Subject: [PATCH 44/52] fix: error context of tokens that refer to different
 buffers does not read outside them

---
 include/json_struct/json_struct.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e87a597..e6645ba 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2961,14 +2961,10 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
     return error;
 
-  const DataRef json_data =
-    parsed_data_vector && parsed_data_vector->size()
-      ? DataRef(parsed_data_vector->front().value.data,
-                size_t(parsed_data_vector->back().value.data - parsed_data_vector->front().value.data))
-      : data_list.front();
-  int64_t real_cursor_index = parsed_data_vector && parsed_data_vector->size()
-                                ? int64_t(parsed_data_vector->at(cursor_index).value.data - json_data.data)
-                                : int64_t(cursor_index);
+  // Tokens may refer to different buffers, so nothing is known about the memory around one of them
+  const bool from_tokens = parsed_data_vector && parsed_data_vector->size();
+  const DataRef json_data = from_tokens ? parsed_data_vector->at(cursor_index).value : data_list.front();
+  int64_t real_cursor_index = from_tokens ? 0 : int64_t(cursor_index);
   const int64_t stop_back = real_cursor_index - std::min(int64_t(real_cursor_index), int64_t(line_range_context));
   const int64_t stop_forward = std::min(real_cursor_index + int64_t(line_range_context), int64_t(json_data.size));
   std::vector<Internal::Lines> lines;
-- 
2.43.0


From c27270c410b1c726d2334391d7e2a49af5c7e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:19 +0000
Subject: [PATCH 45/52] fix: the error context shows whole lines and points at
 the place of the error

---
 include/json_struct/json_struct.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e6645ba..49339f5 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2974,14 +2974,12 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
   int64_t lines_forward = 0;
   int64_t cursor_back;
   int64_t cursor_forward;
-  for (cursor_back = real_cursor_index - 1; cursor_back > stop_back; cursor_back--)
+  for (cursor_back = real_cursor_index - 1; cursor_back >= stop_back; cursor_back--)
   {
     if (*(json_data.data + cursor_back) == '\n')
     {
       lines.front().start = size_t(cursor_back + 1);
       lines_back++;
-      if (lines_back == 1)
-        error_context.character = size_t(real_cursor_index - cursor_back);
       if (lines_back == int64_t(line_context))
       {
         lines_back--;
@@ -2991,8 +2989,8 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       lines.insert(lines.begin(), {0, size_t(cursor_back)});
     }
   }
-  if (lines.front().start == 0 && cursor_back > 0)
-    lines.front().start = size_t(cursor_back);
+  if (cursor_back < stop_back)
+    lines.front().start = size_t(stop_back);
   bool add_new_line = false;
   for (cursor_forward = real_cursor_index; cursor_forward < stop_forward; cursor_forward++)
   {
@@ -3010,8 +3008,8 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       add_new_line = true;
     }
   }
-  if (lines.back().end == 0)
-    lines.back().end = size_t(cursor_forward - 1);
+  if (cursor_forward == stop_forward && !add_new_line)
+    lines.back().end = size_t(cursor_forward);
 
   if (lines.size() > 1)
   {
@@ -3021,15 +3019,14 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       error_context.lines.push_back(std::string(json_data.data + line.start, line.end - line.start));
     }
     error_context.line = size_t(lines_back);
+    error_context.character = size_t(real_cursor_index) - lines[size_t(lines_back)].start;
   }
   else
   {
     error_context.line = 0;
 
-    int64_t left = real_cursor_index > int64_t(range_context) ? real_cursor_index - int64_t(range_context) : 0;
-    int64_t right = real_cursor_index + int64_t(range_context) > int64_t(json_data.size)
-                      ? int64_t(json_data.size)
-                      : real_cursor_index + int64_t(range_context);
+    const int64_t left = std::max(real_cursor_index - int64_t(range_context), int64_t(lines.front().start));
+    const int64_t right = std::min(real_cursor_index + int64_t(range_context), int64_t(lines.front().end));
     error_context.character = size_t(real_cursor_index - left);
     error_context.lines.push_back(std::string(json_data.data + left, size_t(right - left)));
   }
-- 
2.43.0


From dacb002c996b888f80dc75c7d7524736e310b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:00 +0000
Subject: [PATCH 46/52] fix: the error string of a function call has nothing of
 an earlier error

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 49339f5..0350443 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1321,6 +1321,7 @@ public:
     line = 0;
     character = 0;
     error = Error::NoError;
+    custom_message.clear();
     lines.clear();
   }
 };
@@ -2956,6 +2957,7 @@ struct Lines
 
 JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const std::string &custom_message)
 {
+  error_context.clear();
   error_context.error = error;
   error_context.custom_message = custom_message;
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
-- 
2.43.0


From ae6397806111839c22882bb45b0b62ca9b64f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:18 +0000
Subject: [PATCH 47/52] fix: a time that does not fit into the time point is an
 error

---
 include/json_struct/json_struct.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 0350443..2ed437a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9128,6 +9128,15 @@ struct is_specialization<Template<Args...>, Template> : std::true_type
 template <class T>
 struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, std::chrono::time_point>::value>>
 {
+  template <class Unit>
+  static inline Error assign(T &to_type, uint64_t t)
+  {
+    if (t > uint64_t(std::chrono::duration_cast<Unit>((T::duration::max)()).count()))
+      return JS::Error::IllegalDataValue;
+    to_type = T{Unit{t}};
+    return JS::Error::NoError;
+  }
+
   static inline Error to(T &to_type, ParseContext &context)
   {
     uint64_t t;
@@ -9136,11 +9145,11 @@ struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, s
       return err;
 
     if (t <= 1e11) // Seconds => 10 digits, normally
-      to_type = T{std::chrono::seconds{t}};
+      return assign<std::chrono::seconds>(to_type, t);
     else if (t <= 1e14) // Milliseconds => 13 digits, normally
-      to_type = T{std::chrono::milliseconds{t}};
+      return assign<std::chrono::milliseconds>(to_type, t);
     else if (t <= 1e17) // Microseconds
-      to_type = T{std::chrono::microseconds{t}};
+      return assign<std::chrono::microseconds>(to_type, t);
     else if (t <= 1e20) // Nanoseconds
       if constexpr (std::is_same_v<std::chrono::high_resolution_clock::time_point, T>)
         to_type = T{std::chrono::nanoseconds{t}};
-- 
2.43.0


From 72455034585f5ec4972c2fd99468135e36924d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:59 +0000
Subject: [PATCH 48/52] fix: the unit of a time is chosen exactly at the limits

---
 include/json_struct/json_struct.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2ed437a..fcf2fbf 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9144,11 +9144,11 @@ struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, s
     if (err != Error::NoError)
       return err;
 
-    if (t <= 1e11) // Seconds => 10 digits, normally
+    if (t <= uint64_t(1e11)) // Seconds => 10 digits, normally
       return assign<std::chrono::seconds>(to_type, t);
-    else if (t <= 1e14) // Milliseconds => 13 digits, normally
+    else if (t <= uint64_t(1e14)) // Milliseconds => 13 digits, normally
       return assign<std::chrono::milliseconds>(to_type, t);
-    else if (t <= 1e17) // Microseconds
+    else if (t <= uint64_t(1e17)) // Microseconds
       return assign<std::chrono::microseconds>(to_type, t);
     else if (t <= 1e20) // Nanoseconds
       if constexpr (std::is_same_v<std::chrono::high_resolution_clock::time_point, T>)
-- 
2.43.0


From d60dba4278596e9f6a81e0f8c6fb3a14720053be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:22 +0000
Subject: [PATCH 49/52] fix: an enclosing scope counts the end of a scope that
 was pushed inside it

---
 include/json_struct/json_struct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index fcf2fbf..7e65830 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1854,7 +1854,11 @@ inline void Tokenizer::pushScope(JS::Type type)
 inline void Tokenizer::popScope()
 {
   assert(scope_counter.size() && scope_counter.back().depth == 0);
+  const Type type = scope_counter.back().type;
   scope_counter.pop_back();
+  // The end of this scope has not been counted in the enclosing scope
+  if (scope_counter.size() && (type == Type::ArrayStart || type == Type::ObjectStart))
+    scope_counter.back().handleType(Type(static_cast<int>(type) + 1));
 }
 
 inline JS::Error Tokenizer::goToEndOfScope(JS::Token &token)
-- 
2.43.0


From e9440ceaa64ed180fb7979148ed39b50fd833665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:37 +0000
Subject: [PATCH 50/52] fix: numbers just below the middle of the largest float
 and infinity are the largest float

---
 include/json_struct/json_struct.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7e65830..ecf711c 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8591,16 +8591,18 @@ inline float correctly_round_float(const char *str, size_t size, double d, float
     return f;
   float af = f < 0.0f ? -f : f;
   JS_FP_NONFINITE_DIAG_PUSH
-  if (!std::isfinite(af))
-    return f;
   double ad = d < 0.0 ? -d : d;
+  if (!std::isfinite(ad))
+    return f;
   float up = std::nextafter(af, std::numeric_limits<float>::infinity());
   float dn = std::nextafter(af, 0.0f);
+  // infinity stands for the power of two that follows the largest float
+  double af_value = std::isfinite(af) ? double(af) : 2.0 * double(dn) - double(std::nextafter(dn, 0.0f));
   bool have_up = up > af && std::isfinite(up);
   double ulp_d = std::nextafter(ad, std::numeric_limits<double>::infinity()) - ad;
   JS_FP_NONFINITE_DIAG_POP
   bool near_hi = have_up && std::fabs(ad - 0.5 * (double(af) + double(up))) <= 4.0 * ulp_d;
-  bool near_lo = std::fabs(ad - 0.5 * (double(dn) + double(af))) <= 4.0 * ulp_d;
+  bool near_lo = std::fabs(ad - 0.5 * (double(dn) + af_value)) <= 4.0 * ulp_d;
   if (!near_hi && !near_lo)
     return f;
 
-- 
2.43.0


From 86954ef7368d8628a0063e0dd6c8f30c38e7c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:22 +0000
Subject: [PATCH 51/52] fix: scopes nested 65536 deep end at their end

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ecf711c..ae6e54d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1333,7 +1333,7 @@ namespace Internal
 struct ScopeCounter
 {
   JS::Type type;
-  uint16_t depth;
+  size_t depth;
   inline void handleType(JS::Type in_type)
   {
     if (type == JS::Type::ArrayStart || type == JS::Type::ObjectStart)
-- 
2.43.0


From 6faa20cf57883e9567854f0aa649061993dec654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:54 +0000
Subject: [PATCH 52/52] fix: the report of an error in tokens shows the token
 that was read

---
 include/json_struct/json_struct.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ae6e54d..76daede 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2967,9 +2967,11 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
     return error;
 
-  // Tokens may refer to different buffers, so nothing is known about the memory around one of them
+  // Tokens may refer to different buffers, so nothing is known about the memory around one of them.
+  // cursor_index is the token behind the one that was read last
   const bool from_tokens = parsed_data_vector && parsed_data_vector->size();
-  const DataRef json_data = from_tokens ? parsed_data_vector->at(cursor_index).value : data_list.front();
+  const DataRef json_data =
+    from_tokens ? parsed_data_vector->at(cursor_index ? cursor_index - 1 : 0).value : data_list.front();
   int64_t real_cursor_index = from_tokens ? 0 : int64_t(cursor_index);
   const int64_t stop_back = real_cursor_index - std::min(int64_t(real_cursor_index), int64_t(line_range_context));
   const int64_t stop_forward = std::min(real_cursor_index + int64_t(line_range_context), int64_t(json_data.size));
-- 
2.43.0

