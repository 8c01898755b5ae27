From 00669036fec5188d551c1f9e00d224fd566a6ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 001/171] fix: PdfTokenizer: don't lose the second of two
 integers at the end of the input

---
 src/pdfmm/base/PdfTokenizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0a7618b..3dfa275 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -336,7 +336,9 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                 gotToken = this->TryReadNextToken(device, nextToken, thirdTokenType);
                 if (!gotToken)
                 {
-                    // No third token, so it can't be a reference
+                    // No third token, so it can't be a reference.
+                    // Don't consume the second token
+                    this->EnqueueToken(tmp, secondTokenType);
                     return PdfLiteralDataType::Number;
                 }
                 if (thirdTokenType == PdfTokenType::Literal &&
-- 
2.43.0


From 7b9f26fe6de9a32a4b1cc75d2c9086369beac0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 002/171] fix: PdfTokenizer: parentheses following an octal
 escape count for the balance

---
 src/pdfmm/base/PdfTokenizer.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 3dfa275..0cbb236 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -511,28 +511,15 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
 
                 if (!isOctalChar(ch))
                 {
-                    if (ch == ')')
-                    {
-                        // Handle end of string while reading octal code
-                        // NOTE: The octal value is added outside of the loop
-                        break;
-                    }
-
-                    // No octal character anymore,
-                    // so the octal sequence must be ended
-                    // and the character has to be treated as normal character!
+                    // No octal character anymore, so the octal sequence
+                    // must be ended and the character has to be treated
+                    // as an unescaped character below
                     m_charBuffer.push_back(octValue);
-
-                    if (ch != '\\')
-                    {
-                        m_charBuffer.push_back(ch);
-                        escape = false;
-                    }
-
+                    escape = false;
                     octEscape = false;
                     octCharCount = 0;
                     octValue = 0;
-                    continue;
+                    goto HandleRaw;
                 }
 
                 octValue <<= 3;
@@ -571,6 +558,7 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
         }
         else
         {
+        HandleRaw:
             // Handle raw characters
             if (balanceCount == 0 && ch == ')')
                 break;
-- 
2.43.0


From d814da67bb21603ecef25122a6fcf566e51dd5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 003/171] fix: PdfTokenizer: keep characters after unknown
 escapes, skip escaped CR LF whole

---
 src/pdfmm/base/PdfTokenizer.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0cbb236..26f7c77 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -545,12 +545,19 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
             else
             {
                 // Ignore end of line characters when reading escaped sequences
-                if (ch != '\n' && ch != '\r')
+                if (ch == '\r')
                 {
-                    // Handle plain escape sequences
+                    // CR LF is a single end of line
+                    char next;
+                    if (device.Peek(next) && next == '\n')
+                        (void)device.ReadChar();
+                }
+                else if (ch != '\n')
+                {
+                    // Handle plain escape sequences. If the character is
+                    // not a recognized escape, only the backslash is ignored
                     char escapedCh = getEscapedCharacter(ch);
-                    if (escapedCh != '\0')
-                        m_charBuffer.push_back(escapedCh);
+                    m_charBuffer.push_back(escapedCh == '\0' ? ch : escapedCh);
                 }
 
                 escape = false;
-- 
2.43.0


From 8bea61aa4010f0ac5e2fc29a4a87b20b642e3a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 004/171] fix: PdfTokenizer: read numbers with a leading plus
 sign

---
 src/pdfmm/base/PdfTokenizer.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 26f7c77..3b361e8 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -24,6 +24,7 @@ using namespace mm;
 static char getEscapedCharacter(char ch);
 static void readHexString(InputStreamDevice& device, charbuff& buffer);
 static bool isOctalChar(char ch);
+static const char* skipPlusSign(const string_view& token);
 
 PdfTokenizer::PdfTokenizer(bool readReferences)
     : PdfTokenizer(std::make_shared<charbuff>(BufferSize), readReferences)
@@ -197,7 +198,7 @@ int64_t PdfTokenizer::ReadNextNumber(InputStreamDevice& device)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Expected number");
 
     int64_t num;
-    if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+    if (std::from_chars(skipPlusSign(token), token.data() + token.size(), num).ec != std::errc())
     {
         // Don't consume the token
         this->EnqueueToken(token, tokenType);
@@ -282,7 +283,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             if (dataType == PdfLiteralDataType::Real)
             {
                 double val;
-                if (std::from_chars(token.data(), token.data() + token.length(), val, chars_format::fixed).ec != std::errc())
+                if (std::from_chars(skipPlusSign(token), token.data() + token.length(), val, chars_format::fixed).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -295,7 +296,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             else if (dataType == PdfLiteralDataType::Number)
             {
                 int64_t num;
-                if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+                if (std::from_chars(skipPlusSign(token), token.data() + token.size(), num).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -788,6 +789,15 @@ void readHexString(InputStreamDevice& device, charbuff& buffer)
         buffer.push_back('0');
 }
 
+// std::from_chars does not accept a leading plus sign
+const char* skipPlusSign(const string_view& token)
+{
+    if (token.length() > 1 && token[0] == '+' && token[1] != '-')
+        return token.data() + 1;
+    else
+        return token.data();
+}
+
 bool isOctalChar(char ch)
 {
     switch (ch)
-- 
2.43.0


From 12fe06c84debeaf328919f0002bdc8b8878db8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 005/171] fix: PdfTokenizer: read integers out of range as
 reals

---
 src/pdfmm/base/PdfTokenizer.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 3b361e8..2fa1fc2 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -296,7 +296,20 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             else if (dataType == PdfLiteralDataType::Number)
             {
                 int64_t num;
-                if (std::from_chars(skipPlusSign(token), token.data() + token.size(), num).ec != std::errc())
+                auto ec = std::from_chars(skipPlusSign(token), token.data() + token.size(), num).ec;
+                if (ec == std::errc::result_out_of_range)
+                {
+                    // The number is too large for an integer, eg. because
+                    // it's a real that was written without fraction
+                    double val;
+                    if (std::from_chars(skipPlusSign(token), token.data() + token.length(), val, chars_format::fixed).ec == std::errc())
+                    {
+                        variant = PdfVariant(val);
+                        return PdfLiteralDataType::Real;
+                    }
+                }
+
+                if (ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
-- 
2.43.0


From 6089acc60e18b1515df23924d152e3942cb4d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 006/171] fix: PdfTokenizer: a comment ends an empty name

---
 src/pdfmm/base/PdfTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 2fa1fc2..d9f7ca5 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -634,10 +634,10 @@ void PdfTokenizer::ReadName(InputStreamDevice& device, PdfVariant& variant)
     // 10 0 obj / endobj
     // which stupid but legal PDF
     char ch;
-    if (!device.Peek(ch) || IsWhitespace(ch))
+    if (!device.Peek(ch) || IsWhitespace(ch) || ch == '%')
     {
         // We have an empty PdfName
-        // NOTE: Delimeters are handled correctly by tryReadNextToken
+        // NOTE: Other delimeters are handled correctly by tryReadNextToken
         variant = PdfName();
         return;
     }
-- 
2.43.0


From b26ff56105a58ce7770919f618e2a309ff360e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:24 +0000
Subject: [PATCH 007/171] fix: PdfIndirectObjectList: don't truncate new object
 numbers to 16 bits

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 823f1e6..97a5d01 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -192,10 +192,10 @@ PdfReference PdfIndirectObjectList::getNextFreeObject()
     }
 
     // If no free objects are available, create a new object with generation 0
-    uint16_t nextObjectNum = static_cast<uint16_t>(m_ObjectCount);
+    uint32_t nextObjectNum = m_ObjectCount;
     while (true)
     {
-        if ((size_t)(nextObjectNum + 1) == MaxReserveSize)
+        if ((size_t)nextObjectNum + 1 >= MaxReserveSize)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Reached the maximum number of indirect objects");
 
         // Check also if the object number it not available,
-- 
2.43.0


From b28882ab042ce58cab4c32d0fea83d561d3b6a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:24 +0000
Subject: [PATCH 008/171] fix: PdfIndirectObjectList: remember the number, not
 the generation, of objects never to be reused

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 97a5d01..c8166d8 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -274,7 +274,7 @@ int32_t PdfIndirectObjectList::tryAddFreeObject(uint32_t objnum, uint32_t gennum
     // NOTE: gennum is uint32 to accomodate overflows from callers
     if (gennum >= MaxXRefGenerationNum)
     {
-        m_unavailableObjects.insert(gennum);
+        m_unavailableObjects.insert(objnum);
         return -1;
     }
 
-- 
2.43.0


From a7f620f32ffd5b5a820be73667f8a4f7f8b1613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:37 +0000
Subject: [PATCH 009/171] fix: PdfIndirectObjectList: replace only the object
 with the given reference, and attach the new one

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index c8166d8..baa7a50 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -157,13 +157,14 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
     auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end())
+    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
     unique_ptr<PdfObject> ret(node.value());
     node.value() = obj;
     obj->SetIndirectReference(ref);
+    obj->SetDocument(m_Document);
     pushObject(node, obj);
     return ret;
 }
-- 
2.43.0


From aca93e3a5038feb38fd0ce69f1c12e0ca8a0e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:37 +0000
Subject: [PATCH 010/171] fix: PdfIndirectObjectList: clear free and
 unavailable numbers with the objects

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index baa7a50..4b65c94 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -110,6 +110,9 @@ void PdfIndirectObjectList::Clear()
         delete obj;
 
     m_Objects.clear();
+    m_FreeObjects.clear();
+    m_unavailableObjects.clear();
+    m_objectStreams.clear();
     m_ObjectCount = 1;
     m_StreamFactory = nullptr;
 }
-- 
2.43.0


From 94f199eaa1e401f403b21beba79561faa92ae728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 011/171] fix: PdfVariant: assignment of a variant to itself or
 from one it contains

---
 src/pdfmm/base/PdfVariant.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 170c458..46fc4a8 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -239,18 +239,21 @@ void PdfVariant::ToString(string& str) const
 
 PdfVariant& PdfVariant::operator=(const PdfVariant& rhs)
 {
-    clear();
-    assign(rhs);
-    return *this;
+    // NOTE: rhs may be this object, or be contained in it
+    PdfVariant copy(rhs);
+    return operator=(std::move(copy));
 }
 
 PdfVariant& PdfVariant::operator=(PdfVariant&& rhs) noexcept
 {
-    clear();
-    m_DataType = rhs.m_DataType;
-    m_Data = rhs.m_Data;
+    // NOTE: rhs may be this object, or be contained in it
+    auto dataType = rhs.m_DataType;
+    auto data = rhs.m_Data;
     rhs.m_DataType = PdfDataType::Null;
     rhs.m_Data = { };
+    clear();
+    m_DataType = dataType;
+    m_Data = data;
     return *this;
 }
 
-- 
2.43.0


From e8357febaf6da5ba3fdeb6c31c279b6bd570ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 012/171] fix: PdfVariant, PdfObject, PdfDictionary: operator!=
 of distinct instances compares the content

---
 src/pdfmm/base/PdfDictionary.cpp | 4 ++--
 src/pdfmm/base/PdfObject.cpp     | 4 ++--
 src/pdfmm/base/PdfVariant.cpp    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 582fd24..1d1135f 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -51,8 +51,8 @@ bool PdfDictionary::operator==(const PdfDictionary& rhs) const
 
 bool PdfDictionary::operator!=(const PdfDictionary& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     // We don't check owner
     return m_Map != rhs.m_Map;
diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b9c16f3..1c5be31 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -837,8 +837,8 @@ bool PdfObject::operator==(const PdfObject& rhs) const
 
 bool PdfObject::operator!=(const PdfObject& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     if (m_IndirectReference.IsIndirect())
     {
diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 46fc4a8..8c193b1 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -418,8 +418,8 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
 
 bool PdfVariant::operator!=(const PdfVariant& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     switch (m_DataType)
     {
-- 
2.43.0


From 192fe9e2fed0b76c1d97260c09eb3d71fc327760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 013/171] fix: PdfVariant: null equals null only

---
 src/pdfmm/base/PdfVariant.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 8c193b1..fcf62e2 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -408,7 +408,7 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Equality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType == PdfDataType::Null;
+            return rhs.m_DataType == PdfDataType::Null;
         case PdfDataType::Unknown:
             return false;
         default:
@@ -491,7 +491,7 @@ bool PdfVariant::operator!=(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Disequality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType != PdfDataType::Null;
+            return rhs.m_DataType != PdfDataType::Null;
         case PdfDataType::Unknown:
             return true;
         default:
-- 
2.43.0


From e948029b43c5452696368e95b840387f012fedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 014/171] fix: PdfObject: drop the stream when an object
 without stream is assigned

---
 src/pdfmm/base/PdfObject.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 1c5be31..2f22bc7 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -382,7 +382,11 @@ void PdfObject::copyStreamFrom(const PdfObject& obj)
     // NOTE: Don't call rhs.DelayedLoad() here. It's implicitly
     // called in PdfVariant assignment or copy constructor
     obj.delayedLoadStream();
-    if (obj.m_Stream != nullptr)
+    if (obj.m_Stream == nullptr)
+    {
+        m_Stream = nullptr;
+    }
+    else
     {
         auto& stream = getOrCreateStream();
         stream = *obj.m_Stream;
-- 
2.43.0


From 5966d789f86d4faa7fa10a7ed5809487613ef0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 015/171] fix: PdfObject: a moved stream belongs to the object
 it was moved to

---
 src/pdfmm/base/PdfObject.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 2f22bc7..ee130d8 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -397,6 +397,8 @@ void PdfObject::moveStreamFrom(PdfObject& obj)
 {
     obj.DelayedLoadStream();
     m_Stream = std::move(obj.m_Stream);
+    if (m_Stream != nullptr)
+        m_Stream->m_Parent = this;
 }
 
 void PdfObject::EnableDelayedLoading()
-- 
2.43.0


From 995b66d5dc9e7d28e9fd656bf887c169c8bbecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 016/171] fix: PdfObject: assignment of an object to itself or
 from one it contains

---
 src/pdfmm/base/PdfObject.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index ee130d8..06df2ec 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -437,11 +437,20 @@ void PdfObject::SetParent(PdfDataContainer& parent)
 // Objects being assigned always keep current ownership
 void PdfObject::assign(const PdfObject& rhs)
 {
-    rhs.DelayedLoad();
+    rhs.DelayedLoadStream();
+    if (&rhs == this)
+        return;
+
+    // NOTE: rhs may be contained in this object, in which case
+    // it has no stream and it's gone after the assignment
+    bool hasStream = rhs.m_Stream != nullptr;
     m_Variant = rhs.m_Variant;
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
-    copyStreamFrom(rhs);
+    if (hasStream)
+        copyStreamFrom(rhs);
+    else
+        m_Stream = nullptr;
     m_IsDelayedLoadStreamDone = true;
 }
 
@@ -449,11 +458,19 @@ void PdfObject::assign(const PdfObject& rhs)
 // Objects being assigned always keep current ownership
 void PdfObject::moveFrom(PdfObject& rhs)
 {
-    rhs.DelayedLoad();
+    rhs.DelayedLoadStream();
+    if (&rhs == this)
+        return;
+
+    // NOTE: rhs may be contained in this object, in which case
+    // it's gone after the assignment
+    auto stream = std::move(rhs.m_Stream);
     m_Variant = std::move(rhs.m_Variant);
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
-    moveStreamFrom(rhs);
+    m_Stream = std::move(stream);
+    if (m_Stream != nullptr)
+        m_Stream->m_Parent = this;
     m_IsDelayedLoadStreamDone = true;
 }
 
-- 
2.43.0


From 8f538252a36bc463b844e6c757afae22759c4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 017/171] fix: PdfObject: load an object before moving from it

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 06df2ec..edc6bad 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -111,7 +111,7 @@ PdfObject::PdfObject(const PdfObject& rhs)
 // always detached. Ownership will be set automatically elsewhere.
 // Also don't move reference
 PdfObject::PdfObject(PdfObject&& rhs) noexcept :
-    m_Variant(std::move(rhs.m_Variant)),
+    m_Variant((rhs.DelayedLoad(), std::move(rhs.m_Variant))),
     m_IsDirty(false)
 {
     initObject();
-- 
2.43.0


From f554517b88178b982e7e077a8f1cd7f135316946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 018/171] fix: PdfDictionary, PdfArray: assignment is a
 modification

---
 src/pdfmm/base/PdfArray.cpp      | 2 ++
 src/pdfmm/base/PdfDictionary.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index e76d091..fa92d79 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -67,6 +67,7 @@ PdfArray& PdfArray::operator=(const PdfArray& rhs)
 {
     m_Objects = rhs.m_Objects;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -74,6 +75,7 @@ PdfArray& PdfArray::operator=(PdfArray&& rhs) noexcept
 {
     m_Objects = std::move(rhs.m_Objects);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 1d1135f..39fd840 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -30,6 +30,7 @@ PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 {
     m_Map = rhs.m_Map;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -37,6 +38,7 @@ PdfDictionary& PdfDictionary::operator=(PdfDictionary&& rhs) noexcept
 {
     m_Map = std::move(rhs.m_Map);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
-- 
2.43.0


From 6c9bd72d3dcd08ad08ecef0a5da751dcc6e90a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 019/171] fix: PdfArray: keep objects attached to the array
 when the storage is relocated

---
 src/pdfmm/base/PdfArray.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index fa92d79..d90fdec 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -239,8 +239,12 @@ PdfObject& PdfArray::add(PdfObject&& obj)
 
 PdfArray::iterator PdfArray::insertAt(const iterator& pos, PdfObject&& obj)
 {
+    bool relocate = pos != m_Objects.end() || m_Objects.size() == m_Objects.capacity();
     auto ret = m_Objects.emplace(pos, std::move(obj));
-    ret->SetParent(*this);
+    if (relocate)
+        setChildrenParent(); // Relocated objects are detached
+    else
+        ret->SetParent(*this);
     return ret;
 }
 
@@ -301,11 +305,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 {
     size_t currentSize = m_Objects.size();
     m_Objects.resize(count, val);
-    for (size_t i = currentSize; i < count; i++)
-    {
-        auto& obj = m_Objects[i];
-        obj.SetParent(*this);
-    }
+    setChildrenParent(); // Relocated objects are detached
 
     if (currentSize != count)
         SetDirty();
@@ -314,6 +314,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 void PdfArray::Reserve(unsigned n)
 {
     m_Objects.reserve(n);
+    setChildrenParent(); // Relocated objects are detached
 }
 
 PdfObject& PdfArray::operator[](size_type idx)
@@ -372,7 +373,7 @@ void PdfArray::resize(size_t size)
     if (size > numeric_limits<unsigned>::max())
         throw length_error("Too big size");
 #endif
-    m_Objects.resize(size);
+    Resize((unsigned)size, PdfObject());
 }
 
 void PdfArray::reserve(size_t size)
@@ -381,7 +382,7 @@ void PdfArray::reserve(size_t size)
     if (size > numeric_limits<unsigned>::max())
         throw length_error("Too big size");
 #endif
-    m_Objects.reserve(size);
+    Reserve((unsigned)size);
 }
 
 PdfObject& PdfArray::front()
-- 
2.43.0


From 568bb84d21dd454d76a92f16f2de4134ba5dd5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 020/171] fix: PdfObject: write the compressed data of streams
 without filter, don't lose them

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index edc6bad..f1228b6 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -251,7 +251,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
                 input.CopyTo(output);
             }
 
-            stream.MoveFrom(*m_Stream);
+            m_Stream->MoveFrom(stream);
         }
 
         // Set length if it's not handled by the underlying provider
-- 
2.43.0


From 2580c5b9695837af3fc660b62ad06b300473311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 021/171] fix: PdfObjectStream: clear the source, not the
 target of a move

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f29f152..0c65c2d 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -205,7 +205,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     {
         auto stream = rhs.GetInputStream(true);
         this->SetData(stream, true);
-        m_Provider->Clear();
+        rhs.m_Provider->Clear();
     }
 
     // Fix the /Filter and /DecodeParms keys for
-- 
2.43.0


From 0815b1ad4518b6032e06d0e972a37fab142cacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 022/171] fix: PdfObjectStream: ignore decode parameters in
 excess of the filters

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 0c65c2d..439ec7f 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -317,7 +317,7 @@ unique_ptr<InputStream> PdfObjectStream::getInputStream(bool raw, PdfFilterList&
             }
             else if (decodeParmsObj->TryGetArray(decodeParmsArr))
             {
-                for (unsigned i = 0; i < decodeParmsArr->GetSize(); i++)
+                for (unsigned i = 0; i < decodeParmsArr->GetSize() && i < decodeParms.size(); i++)
                 {
                     auto decodeParmsEntry = decodeParmsArr->FindAt(i);
                     if (decodeParmsEntry == nullptr || !decodeParmsEntry->TryGetDictionary(decodeParmsDict))
-- 
2.43.0


From 19e237478ea21f6251694f7e19b8ae48e07e5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 023/171] fix: PdfObjectInputStream, PdfObjectOutputStream:
 move the underlying streams too

---
 src/pdfmm/base/PdfObjectStream.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 439ec7f..2525270 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -390,7 +390,9 @@ PdfObjectInputStream::~PdfObjectInputStream()
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
 {
     utls::move(rhs.m_stream, m_stream);
-    utls::move(rhs.m_MediaDecodeParms, m_MediaDecodeParms);
+    m_input = std::move(rhs.m_input);
+    m_MediaFilters = std::move(rhs.m_MediaFilters);
+    m_MediaDecodeParms = std::move(rhs.m_MediaDecodeParms);
 }
 
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectStream& stream, bool raw)
@@ -412,7 +414,12 @@ bool PdfObjectInputStream::readChar(char& ch)
 
 PdfObjectInputStream& PdfObjectInputStream::operator=(PdfObjectInputStream&& rhs) noexcept
 {
+    if (m_stream != nullptr && m_stream != rhs.m_stream)
+        m_stream->m_locked = false;
     utls::move(rhs.m_stream, m_stream);
+    m_input = std::move(rhs.m_input);
+    m_MediaFilters = std::move(rhs.m_MediaFilters);
+    m_MediaDecodeParms = std::move(rhs.m_MediaDecodeParms);
     return *this;
 }
 
@@ -460,7 +467,7 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
 }
 
 PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectOutputStream&& rhs) noexcept
-    : m_filters(std::move(rhs.m_filters))
+    : m_filters(std::move(rhs.m_filters)), m_output(std::move(rhs.m_output))
 {
     utls::move(rhs.m_stream, m_stream);
 }
-- 
2.43.0


From 24beaed8ace90bde6483c940327dbb973f631b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 024/171] fix: PdfObject: don't compress streams whose
 dictionary names a filter

---
 src/pdfmm/base/PdfObject.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index f1228b6..aa76d17 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -239,6 +239,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         const PdfObject* metadataObj;
         if ((writeMode & PdfWriteFlags::NoFlateCompress) == PdfWriteFlags::None
             && m_Stream->GetFilters().size() == 0
+            && !m_Variant.GetDictionary().HasKey(PdfName::KeyFilter)
             && (m_Document == nullptr 
                 || (metadataObj = m_Document->GetCatalog().GetMetadataObject()) == nullptr
                 || m_IndirectReference != metadataObj->GetIndirectReference()))
-- 
2.43.0


From 130d7532d2bc4c89ce319a4810106c732b13aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 025/171] fix: PdfObjectStream: remove the decode parameters of
 replaced data

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 2525270..7d3c850 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -435,6 +435,9 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
         // preserve them on the parent
         if (m_filters.has_value())
         {
+            // The encoded data doesn't use any parameter
+            m_stream->GetParent().GetDictionary().RemoveKey(DecodeParmsKey);
+
             auto& filters = *m_filters;
             if (filters.size() == 0)
             {
-- 
2.43.0


From b0f4708ec61f5ef39d0ae6a1373eeb80e86694bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 026/171] fix: PdfObjectStream: writing a stream modifies its
 object

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 7d3c850..77dba49 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -34,18 +34,21 @@ PdfObjectStream::~PdfObjectStream() { }
 PdfObjectOutputStream PdfObjectStream::GetOutputStreamRaw(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(), append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, { DefaultFilter }, append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(const PdfFilterList& filters, bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(filters), append);
 }
 
-- 
2.43.0


From e532a933921af4994badd5c13c5c1355b2044574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 027/171] fix: setting document information was ignored, as
 nullable's operator== answered the opposite

---
 src/pdfmm/common/nullable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/common/nullable.h b/src/pdfmm/common/nullable.h
index 1fbb79e..99b2fa1 100644
--- a/src/pdfmm/common/nullable.h
+++ b/src/pdfmm/common/nullable.h
@@ -241,12 +241,12 @@ namespace COMMON_NAMESPACE
     bool operator==(const nullable<std::decay_t<T2>>& lhs, const nullable<T2&>& rhs)
     {
         if (lhs.m_hasValue != rhs.m_hasValue)
-            return true;
+            return false;
 
         if (lhs.m_hasValue)
-            return lhs.m_value != *rhs.m_value;
+            return lhs.m_value == *rhs.m_value;
         else
-            return false;
+            return true;
     }
 
     template <typename T2>
-- 
2.43.0


From c53d9839a844d04f76ad47c7224163f57761bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 028/171] fix: SetAuthor compared with the author before it was
 read from the document

---
 src/pdfmm/base/PdfMetadata.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index 3b41bd0..95bc023 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -44,6 +44,7 @@ const nullable<PdfString>& PdfMetadata::GetTitle() const
 
 void PdfMetadata::SetAuthor(nullable<const PdfString&> author, bool syncXMP)
 {
+    ensureInitialized();
     if (m_metadata.Author == author)
         return;
 
-- 
2.43.0


From 24a65b002d03fa72a74b8bf2d44ae09de4e62cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 029/171] fix: a catalog version earlier than the header's
 lowered the version of the loaded document

---
 src/pdfmm/base/PdfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index a74b5e9..df7625f 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -909,7 +909,8 @@ void PdfParser::UpdateDocumentVersion()
             if (versionObj.IsName())
             {
                 auto version = mm::GetPdfVersion(versionObj.GetName().GetString());
-                if (version != PdfVersion::Unknown)
+                // The version of the catalog counts only if it is later
+                if (version != PdfVersion::Unknown && version > m_PdfVersion)
                 {
                     mm::LogMessage(PdfLogSeverity::Information,
                         "Updating version from {} to {}",
-- 
2.43.0


From 7b46df6fd53cfc2722f530688c0c7ea0f2ab210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 030/171] fix: saving with an earlier version kept the later
 version in the catalog

---
 src/pdfmm/base/PdfMemDocument.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 9aa21f3..5edb1f2 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -238,6 +238,14 @@ void PdfMemDocument::Save(OutputStreamDevice& device, PdfSaveOptions opts)
 {
     beforeWrite(opts);
 
+    // A later version in the catalog would override the version in the header
+    auto versionObj = GetCatalog().GetDictionary().FindKey("Version");
+    if (versionObj != nullptr && versionObj->IsName()
+        && mm::GetPdfVersion(versionObj->GetName().GetString()) > this->GetPdfVersion())
+    {
+        GetCatalog().GetDictionary().RemoveKey("Version");
+    }
+
     PdfWriter writer(this->GetObjects(), this->GetTrailer().GetObject());
     writer.SetPdfVersion(this->GetPdfVersion());
     writer.SetSaveOptions(opts);
-- 
2.43.0


From 74527572c6d45a954479780020e8232d89cdda9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 031/171] fix: the cross-reference section lacked object 0 when
 the first object number was above 1

---
 src/pdfmm/base/PdfXRef.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfXRef.cpp b/src/pdfmm/base/PdfXRef.cpp
index c59a0fb..6e04426 100644
--- a/src/pdfmm/base/PdfXRef.cpp
+++ b/src/pdfmm/base/PdfXRef.cpp
@@ -76,6 +76,10 @@ void PdfXRef::addObject(const PdfReference& ref, nullable<uint64_t> offset, bool
 
 void PdfXRef::Write(OutputStreamDevice& device, charbuff& buffer)
 {
+    // Object 0 heads the list of free objects and is always present
+    if (m_blocks.size() != 0 && m_blocks.front().First > 1)
+        SetFirstEmptyBlock();
+
     auto it = m_blocks.begin();
     XRefItemList::const_iterator itItems;
     ReferenceList::const_iterator itFree;
-- 
2.43.0


From 990c2bedd52954588c82c615f34e4f45cd7f6ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 032/171] fix: an object put in by ReplaceObject was not
 written by an incremental update

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 4b65c94..32d7c6a 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -168,6 +168,7 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
     node.value() = obj;
     obj->SetIndirectReference(ref);
     obj->SetDocument(m_Document);
+    obj->setDirty();
     pushObject(node, obj);
     return ret;
 }
-- 
2.43.0


From a665ff26597eb25e68c3b1480bee7c769474e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 033/171] fix: changes already written once, by a failed or
 earlier update or a copy saved elsewhere, were missing from the next
 incremental update

---
 src/pdfmm/base/PdfObject.cpp | 6 ++++--
 src/pdfmm/base/PdfObject.h   | 3 +++
 src/pdfmm/base/PdfWriter.cpp | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index aa76d17..65d6e0e 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -134,7 +134,7 @@ PdfObjectStream* PdfObject::GetStream()
 // NOTE: Dirty objects are those who are supposed to be serialized
 // or deserialized.
 PdfObject::PdfObject(PdfVariant&& var, const PdfReference& indirectReference, bool isDirty)
-    : m_Variant(std::move(var)), m_IndirectReference(indirectReference), m_IsDirty(isDirty)
+    : m_Variant(std::move(var)), m_IndirectReference(indirectReference), m_IsDirty(isDirty), m_IsChanged(isDirty)
 {
     initObject();
     SetVariantOwner();
@@ -502,7 +502,7 @@ void PdfObject::ResetDirty()
             break;
     }
 
-    resetDirty();
+    m_IsDirty = false;
 }
 
 void PdfObject::SetDirty()
@@ -523,11 +523,13 @@ void PdfObject::SetDirty()
 void PdfObject::setDirty()
 {
     m_IsDirty = true;
+    m_IsChanged = true;
 }
 
 void PdfObject::resetDirty()
 {
     m_IsDirty = false;
+    m_IsChanged = false;
 }
 
 PdfObject::operator const PdfVariant& () const
diff --git a/src/pdfmm/base/PdfObject.h b/src/pdfmm/base/PdfObject.h
index 5b7e4db..b3a50e4 100644
--- a/src/pdfmm/base/PdfObject.h
+++ b/src/pdfmm/base/PdfObject.h
@@ -41,6 +41,7 @@ class PDFMM_API PdfObject
     friend class PdfDataContainer;
     friend class PdfObjectStreamParser;
     friend class PdfParser;
+    friend class PdfWriter;
 
 public:
     static PdfObject Null;
@@ -523,6 +524,8 @@ private:
     PdfDocument* m_Document;
     PdfDataContainer* m_Parent;
     bool m_IsDirty; // Indicates if this object was modified after construction
+    bool m_IsChanged = false; // As above, but not reset by writing. Incremental
+                              // updates refer to the document as it was loaded
 
     mutable bool m_IsDelayedLoadDone;
     mutable bool m_IsDelayedLoadStreamDone;
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index f6ba8d3..27d09ad 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -132,7 +132,7 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
 {
     for (PdfObject* obj : objects)
     {
-        if (m_IncrementalUpdate && !obj->IsDirty())
+        if (m_IncrementalUpdate && !obj->m_IsChanged)
         {
             if (m_rewriteXRefTable)
             {
-- 
2.43.0


From b9a0879af154121e931f7db5b7e18ea976da1125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:54 +0000
Subject: [PATCH 034/171] fix: assigning a stream to another was not always
 written by an incremental update

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 77dba49..d39c47c 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -181,12 +181,15 @@ void PdfObjectStream::Unwrap()
 
 PdfObjectStream& PdfObjectStream::operator=(const PdfObjectStream& rhs)
 {
+    m_Parent->SetDirty();
     CopyFrom(rhs);
     return (*this);
 }
 
 PdfObjectStream& PdfObjectStream::operator=(PdfObjectStream&& rhs) noexcept
 {
+    m_Parent->SetDirty();
+    rhs.m_Parent->SetDirty();
     MoveFrom(rhs);
     return (*this);
 }
-- 
2.43.0


From 7ae5e756ae2ebbe1c73b4f1b3c20c72b2e07c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 035/171] fix: cross-reference stream fields wider than four
 bytes were rejected

---
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 3 +++
 src/pdfmm/base/PdfXRefStreamParserObject.h   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index 472ffd9..a4a65c5 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -203,6 +203,9 @@ void PdfXRefStreamParserObject::readXRefStreamEntry(PdfXRefEntry& entry, char* b
             break;
         case 1:
             // normal uncompressed object
+            if (entryRaw[1] > PTRDIFF_MAX)
+                PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
             entry.Offset = entryRaw[1];
             entry.Generation = (uint32_t)entryRaw[2];
             entry.Type = XRefEntryType::InUse;
diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.h b/src/pdfmm/base/PdfXRefStreamParserObject.h
index d9e4a68..63ab275 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.h
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.h
@@ -27,7 +27,7 @@ class PDFMM_API PdfXRefStreamParserObject final : public PdfParserObject
     friend class PdfParser;
 
     static constexpr unsigned W_ARRAY_SIZE = 3;
-    static constexpr unsigned W_MAX_BYTES = 4;
+    static constexpr unsigned W_MAX_BYTES = 8;
 
 private:
     /** Parse the object data from the given file handle starting at
-- 
2.43.0


From b42892747fe117ad6772dc650610fe84d3ecc625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:11 +0000
Subject: [PATCH 036/171] fix: strings of AES-256 encrypted documents were read
 with their padding

---
 src/pdfmm/base/PdfEncrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 507a095..7766088 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1757,6 +1757,7 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
             EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
             int lOutLen;
             EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_oeValue, 32);
+            EVP_CIPHER_CTX_set_padding(aes, 1); // The context is used to decrypt strings as well
         }
     }
     else
@@ -1774,6 +1775,7 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
         EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
         int lOutLen;
         EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_ueValue, 32);
+        EVP_CIPHER_CTX_set_padding(aes, 1); // The context is used to decrypt strings as well
     }
 
     // TODO Validate permissions (or not...)
-- 
2.43.0


From 55ef7128f8ecdb9985a8eae1062100bccd09979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:15 +0000
Subject: [PATCH 037/171] fix: text beginning like a byte order mark was read
 back as unicode

---
 src/pdfmm/base/PdfString.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 31be2a3..781a4ec 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -313,7 +313,11 @@ void PdfString::initFromUtf8String(const string_view& view)
     }
 
     bool isAsciiEqual;
-    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual))
+    string pdfDocEncoded;
+    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual)
+        // Ensure the text will not be taken for an unicode string because of what it begins with
+        && (isAsciiEqual || (mm::TryConvertUTF8ToPdfDocEncoding(view, pdfDocEncoded)
+            && getEncoding(pdfDocEncoded) == StringEncoding::PdfDocEncoding)))
         m_data.reset(new StringData{ isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding, charbuff(view) });
     else
         m_data.reset(new StringData{ PdfStringState::Unicode, charbuff(view) });
-- 
2.43.0


From ead72011de7360046b8ac5a4ac37b3211013fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:19 +0000
Subject: [PATCH 038/171] fix: invalid unicode in a string threw foreign
 exceptions

---
 src/pdfmm/base/PdfString.cpp | 59 ++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 781a4ec..283cf03 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -31,6 +31,7 @@ enum class StringEncoding
 
 static char getEscapedCharacter(char ch);
 static StringEncoding getEncoding(const string_view& view);
+static bool tryReadUnicode(const string_view& view, StringEncoding encoding, string& utf8str);
 
 PdfString::PdfString()
     : m_data(new StringData{ PdfStringState::Ascii, { } }), m_isHex(false)
@@ -334,32 +335,20 @@ void PdfString::evaluateString() const
         case PdfStringState::RawBuffer:
         {
             auto encoding = getEncoding(m_data->Chars);
+            string utf8;
+            if (encoding != StringEncoding::PdfDocEncoding && !tryReadUnicode(m_data->Chars, encoding, utf8))
+            {
+                // It's not valid unicode, in spite of the byte order mark
+                encoding = StringEncoding::PdfDocEncoding;
+            }
+
             switch (encoding)
             {
                 case StringEncoding::utf16be:
-                {
-                    // Remove BOM and decode utf-16 string
-                    string utf8;
-                    auto view = string_view(m_data->Chars).substr(2);
-                    utls::ReadUtf16BEString(view, utf8);
-                    utf8.swap(m_data->Chars);
-                    m_data->State = PdfStringState::Unicode;
-                    break;
-                }
                 case StringEncoding::utf16le:
-                {
-                    // Remove BOM and decode utf-16 string
-                    string utf8;
-                    auto view = string_view(m_data->Chars).substr(2);
-                    utls::ReadUtf16LEString(view, utf8);
-                    utf8.swap(m_data->Chars);
-                    m_data->State = PdfStringState::Unicode;
-                    break;
-                }
                 case StringEncoding::utf8:
                 {
-                    // Remove BOM
-                    m_data->Chars.substr(3).swap(m_data->Chars);
+                    utf8.swap(m_data->Chars);
                     m_data->State = PdfStringState::Unicode;
                     break;
                 }
@@ -435,6 +424,36 @@ StringEncoding getEncoding(const string_view& view)
     return StringEncoding::PdfDocEncoding;
 }
 
+bool tryReadUnicode(const string_view& view, StringEncoding encoding, string& utf8str)
+{
+    try
+    {
+        // Remove BOM and decode the string
+        switch (encoding)
+        {
+            case StringEncoding::utf16be:
+            case StringEncoding::utf16le:
+                if (view.size() % 2 != 0)
+                    return false;
+
+                if (encoding == StringEncoding::utf16be)
+                    utls::ReadUtf16BEString(view.substr(2), utf8str);
+                else
+                    utls::ReadUtf16LEString(view.substr(2), utf8str);
+                return true;
+            case StringEncoding::utf8:
+                utf8str = view.substr(3);
+                return utls::IsValidUtf8String(utf8str);
+            default:
+                return false;
+        }
+    }
+    catch (const utf8::exception&)
+    {
+        return false;
+    }
+}
+
 char getEscapedCharacter(char ch)
 {
     switch (ch)
-- 
2.43.0


From 1ba5647b92c67596756bb30a68e90dba95e6d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:22 +0000
Subject: [PATCH 039/171] fix: byte 0x16 in PDFDocEncoding was read as U+0017

---
 src/pdfmm/private/PdfEncodingPrivate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfEncodingPrivate.cpp b/src/pdfmm/private/PdfEncodingPrivate.cpp
index 7bb4cce..6908955 100644
--- a/src/pdfmm/private/PdfEncodingPrivate.cpp
+++ b/src/pdfmm/private/PdfEncodingPrivate.cpp
@@ -37,7 +37,7 @@ static const char32_t s_cEncoding[] = {
     0x0013,
     0x0014,
     0x0015,
-    0x0017,
+    0x0016,
     0x0017,
     0x02D8,
     0x02C7, // dec 25
-- 
2.43.0


From 58af787533ba0759983a92fb09b76f6d58d71a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 040/171] fix: ASCIIHexDecode ignored its end-of-data mark and
 misplaced an odd last digit

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 22 ++++++++++++++++------
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index bf89236..89dd025 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -223,7 +223,7 @@ private:
 #pragma region PdfHexFilter
 
 PdfHexFilter::PdfHexFilter()
-    : m_DecodedByte(0), m_Low(true)
+    : m_DecodedByte(0), m_Low(true), m_Eod(false)
 {
 }
 
@@ -242,12 +242,13 @@ void PdfHexFilter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_DecodedByte = 0;
     m_Low = true;
+    m_Eod = false;
 }
 
 void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
     unsigned char val;
-    while (len-- != 0)
+    while (len-- != 0 && !m_Eod)
     {
         if (PdfTokenizer::IsWhitespace(*buffer))
         {
@@ -255,7 +256,16 @@ void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
             continue;
         }
 
-        (void)utls::TryGetHexValue(*buffer, val);
+        if (*buffer == '>')
+        {
+            // End of data, whatever follows is not part of it
+            m_Eod = true;
+            break;
+        }
+
+        if (!utls::TryGetHexValue(*buffer, val))
+            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
         if (m_Low)
         {
             m_DecodedByte = (char)(val & 0x0F);
@@ -277,9 +287,9 @@ void PdfHexFilter::EndDecodeImpl()
 {
     if (!m_Low)
     {
-        // an odd number of bytes was read,
-        // so the last byte is 0
-        GetStream()->Write(m_DecodedByte);
+        // an odd number of digits was read,
+        // so the missing last one is 0
+        GetStream()->Write((char)(m_DecodedByte << 4));
     }
 }
 
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index b41d766..3ceefa7 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -49,6 +49,7 @@ public:
 private:
     char m_DecodedByte;
     bool m_Low;
+    bool m_Eod;
 };
 
 /** The Ascii85 filter.
-- 
2.43.0


From fff1120f0eee8299421b38b435e32957b9f5d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 041/171] fix: ASCII85Decode end mark split between two blocks

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 27 ++++++++++++++++---------
 src/pdfmm/private/PdfFiltersPrivate.h   |  2 ++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 89dd025..600b14e 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -303,7 +303,7 @@ void PdfHexFilter::EndDecodeImpl()
 // Paul Haahr - http://www.webcom.com/~haahr/
 
 PdfAscii85Filter::PdfAscii85Filter()
-    : m_count(0), m_tuple(0)
+    : m_count(0), m_tuple(0), m_foundTilde(false), m_foundEndMarker(false)
 {
 }
 
@@ -379,14 +379,26 @@ void PdfAscii85Filter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_count = 0;
     m_tuple = 0;
+    m_foundTilde = false;
+    m_foundEndMarker = false;
 }
 
 void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    bool foundEndMarker = false;
-
-    while (len != 0 && !foundEndMarker)
+    // NOTE: The end marker may be split between two blocks
+    while (len != 0 && !m_foundEndMarker)
     {
+        if (m_foundTilde)
+        {
+            if (*buffer != '>' && !PdfTokenizer::IsWhitespace(*buffer))
+                PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
+            m_foundEndMarker = *buffer == '>';
+            len--;
+            buffer++;
+            continue;
+        }
+
         switch (*buffer)
         {
             default:
@@ -412,12 +424,7 @@ void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
                 this->WidePut(0, 4);
                 break;
             case '~':
-                buffer++;
-                len--;
-                if (len != 0 && *buffer != '>')
-                    PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-
-                foundEndMarker = true;
+                m_foundTilde = true;
                 break;
             case '\n': case '\r': case '\t': case ' ':
             case '\0': case '\f': case '\b': case 0177:
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 3ceefa7..1cf2390 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -84,6 +84,8 @@ private:
 private:
     int m_count;
     unsigned m_tuple;
+    bool m_foundTilde;
+    bool m_foundEndMarker;
 };
 
 /** The Flate filter.
-- 
2.43.0


From 5ebdcc2acad17428a3571bab1962990e41976fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 042/171] fix: RunLengthDecode was not decoding as specified

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 47 ++++++++++++++++---------
 src/pdfmm/private/PdfFiltersPrivate.h   |  4 ++-
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 600b14e..1df78ad 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -613,7 +613,7 @@ void PdfFlateFilter::EndDecodeImpl()
 #pragma region PdfRLEFilter
 
 PdfRLEFilter::PdfRLEFilter()
-    : m_CodeLen(0)
+    : m_LiteralCount(0), m_RepeatCount(0), m_Eod(false)
 {
 }
 
@@ -634,35 +634,48 @@ void PdfRLEFilter::EndEncodeImpl()
 
 void PdfRLEFilter::BeginDecodeImpl(const PdfDictionary*)
 {
-    m_CodeLen = 0;
+    m_LiteralCount = 0;
+    m_RepeatCount = 0;
+    m_Eod = false;
 }
 
 void PdfRLEFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    while (len-- != 0)
+    while (len != 0 && !m_Eod)
     {
-        if (m_CodeLen == 0)
-        {
-            m_CodeLen = static_cast<int>(*buffer);
-        }
-        else if (m_CodeLen == 128)
+        if (m_LiteralCount != 0)
         {
-            break;
+            size_t count = std::min(len, (size_t)m_LiteralCount);
+            GetStream()->Write(buffer, count);
+            m_LiteralCount -= (unsigned)count;
+            buffer += count;
+            len -= count;
+            continue;
         }
-        else if (m_CodeLen <= 127)
+
+        if (m_RepeatCount != 0)
         {
-            GetStream()->Write(buffer, 1);
-            m_CodeLen--;
+            while (m_RepeatCount != 0)
+            {
+                GetStream()->Write(buffer, 1);
+                m_RepeatCount--;
+            }
         }
-        else if (m_CodeLen >= 129)
+        else
         {
-            m_CodeLen = 257 - m_CodeLen;
-
-            while (m_CodeLen--)
-                GetStream()->Write(buffer, 1);
+            // Length byte: 0 to 127 copy the next length + 1 bytes,
+            // 129 to 255 repeat the next byte 257 - length times
+            unsigned length = static_cast<unsigned char>(*buffer);
+            if (length == 128)
+                m_Eod = true;
+            else if (length < 128)
+                m_LiteralCount = length + 1;
+            else
+                m_RepeatCount = 257 - length;
         }
 
         buffer++;
+        len--;
     }
 }
 
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 1cf2390..a836af1 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -149,7 +149,9 @@ public:
     inline PdfFilterType GetType() const override { return PdfFilterType::RunLengthDecode; }
 
 private:
-    int m_CodeLen;
+    unsigned m_LiteralCount;   // Bytes still to copy as they are
+    unsigned m_RepeatCount;    // Copies of the next byte to write
+    bool m_Eod;
 };
 
 /** The LZW filter.
-- 
2.43.0


From d8ef88f053e415f034bba819e38d9179e2cdcb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 043/171] fix: LZWDecode lost its state between blocks and
 ignored EarlyChange

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 86 ++++++++++++++-----------
 src/pdfmm/private/PdfFiltersPrivate.h   |  8 ++-
 2 files changed, 56 insertions(+), 38 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 1df78ad..32f5d05 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -691,7 +691,11 @@ PdfLZWFilter::PdfLZWFilter() :
     m_mask(0),
     m_code_len(0),
     m_character(0),
-    m_First(false)
+    m_EarlyChange(true),
+    m_Eod(false),
+    m_codeBuff(0),
+    m_buffer_size(0),
+    m_old(0)
 {
 }
 
@@ -716,50 +720,52 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_code_len = 9;
     m_character = 0;
 
-    m_First = true;
+    m_EarlyChange = true;
+    m_Eod = false;
+    m_codeBuff = 0;
+    m_buffer_size = 0;
+    m_old = 0;
 
     if (decodeParms != nullptr)
+    {
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
+        m_EarlyChange = decodeParms->FindKeyAs<int64_t>("EarlyChange", 1) != 0;
+    }
 
     InitTable();
 }
 
 void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    unsigned buffer_size = 0;
+    // NOTE: Codes may be split between two blocks, so
+    // all the state of the decoding is kept between them
     const unsigned buffer_max = 24;
+    constexpr unsigned LZW_MAX_CODES = 4096;
 
-    uint32_t old = 0;
     uint32_t code = 0;
-    uint32_t codeBuff = 0;
 
     TLzwItem item;
 
     vector<unsigned char> data;
-    if (m_First)
-    {
-        m_character = *buffer;
-        m_First = false;
-    }
 
-    while (len != 0)
+    while (len != 0 && !m_Eod)
     {
         // Fill the buffer
-        while (buffer_size <= (buffer_max - 8) && len)
+        while (m_buffer_size <= (buffer_max - 8) && len)
         {
-            codeBuff <<= 8;
-            codeBuff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
-            buffer_size += 8;
+            m_codeBuff <<= 8;
+            m_codeBuff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
+            m_buffer_size += 8;
 
             buffer++;
             len--;
         }
 
         // read from the buffer
-        while (buffer_size >= m_code_len)
+        while (m_buffer_size >= m_code_len)
         {
-            code = (codeBuff >> (buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
-            buffer_size -= m_code_len;
+            code = (m_codeBuff >> (m_buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
+            m_buffer_size -= m_code_len;
 
             if (code == PdfLZWFilter::s_clear)
             {
@@ -770,18 +776,18 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
             }
             else if (code == PdfLZWFilter::s_eod)
             {
-                len = 0;
+                m_Eod = true;
                 break;
             }
             else
             {
                 if (code >= m_table.size())
                 {
-                    if (old >= m_table.size())
+                    if (m_old >= m_table.size())
                     {
                         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
                     }
-                    data = m_table[old].value;
+                    data = m_table[m_old].value;
                     data.push_back(m_character);
                 }
                 else
@@ -794,26 +800,32 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
                     GetStream()->Write(reinterpret_cast<char*>(data.data()), data.size());
 
                 m_character = data[0];
-                if (old < m_table.size()) // fix the first loop
-                    data = m_table[old].value;
+                if (m_old < m_table.size()) // fix the first loop
+                    data = m_table[m_old].value;
                 data.push_back(m_character);
 
-                item.value = data;
-                m_table.push_back(item);
-
-                old = code;
-
-                switch (m_table.size())
+                // No entry can be added to a full table
+                if (m_table.size() < LZW_MAX_CODES)
                 {
-                    case 511:
-                    case 1023:
-                    case 2047:
-                        m_code_len++;
-                        m_mask++;
-                        break;
-                    default:
-                        break;
+                    item.value = data;
+                    m_table.push_back(item);
+
+                    // The code length increases one code
+                    // early unless told otherwise
+                    switch (m_table.size() + (m_EarlyChange ? 1 : 0))
+                    {
+                        case 512:
+                        case 1024:
+                        case 2048:
+                            m_code_len++;
+                            m_mask++;
+                            break;
+                        default:
+                            break;
+                    }
                 }
+
+                m_old = code;
             }
         }
     }
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index a836af1..6534ac1 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -202,7 +202,13 @@ private:
     unsigned m_code_len;
     unsigned char m_character;
 
-    bool m_First;
+    bool m_EarlyChange;
+    bool m_Eod;
+
+    // Bits and code left over from the previous block
+    uint32_t m_codeBuff;
+    unsigned m_buffer_size;
+    uint32_t m_old;
 
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
 };
-- 
2.43.0


From 684ff5038c111e831bff215ce0f24a222082f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:14 +0000
Subject: [PATCH 044/171] fix: predictors with less than one byte per pixel or
 with high bytes were decoded wrongly

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 32f5d05..0b07088 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -55,8 +55,6 @@ public:
         }
 
         m_CurrRowIndex = 0;
-        m_BytesPerPixel = (m_BitsPerComponent * m_Colors) >> 3;
-        m_Rows = (m_ColumnCount * m_Colors * m_BitsPerComponent) >> 3;
 
         // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
         if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
@@ -65,9 +63,10 @@ public:
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
         }
 
-        // check that computed allocation sizes are > 0 (CVE-2018-20797)
-        if (m_Rows < 1 || m_BitsPerComponent < 1)
-            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+        // A pixel counts as one byte at least, and rows are
+        // padded to a whole number of bytes
+        m_BytesPerPixel = std::max(1, (m_BitsPerComponent * m_Colors) >> 3);
+        m_Rows = (int)(((int64_t)m_ColumnCount * m_Colors * m_BitsPerComponent + 7) >> 3);
 
         m_Prev.resize(m_Rows);
         memset(m_Prev.data(), 0, sizeof(char) * m_Rows);
@@ -88,7 +87,7 @@ public:
         {
             if (m_NextByteIsPredictor)
             {
-                m_CurrPredictor = *buffer + 10;
+                m_CurrPredictor = static_cast<unsigned char>(*buffer) + 10;
                 m_NextByteIsPredictor = false;
             }
             else
@@ -129,8 +128,9 @@ public:
                     case 13: // png average
                     {
                         int prev = (m_CurrRowIndex - m_BytesPerPixel < 0
-                            ? 0 : m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
-                        m_Prev[m_CurrRowIndex] = ((prev + m_Prev[m_CurrRowIndex]) >> 1) + *buffer;
+                            ? 0 : static_cast<unsigned char>(m_Prev[m_CurrRowIndex - m_BytesPerPixel]));
+                        int up = static_cast<unsigned char>(m_Prev[m_CurrRowIndex]);
+                        m_Prev[m_CurrRowIndex] = static_cast<char>(((prev + up) >> 1) + *buffer);
                         break;
                     }
                     case 14: // png paeth
@@ -190,7 +190,7 @@ public:
             if (m_CurrRowIndex >= m_Rows)
             {   // One line finished
                 m_CurrRowIndex = 0;
-                m_NextByteIsPredictor = (m_CurrPredictor >= 10);
+                m_NextByteIsPredictor = (m_Predictor >= 10);
                 stream->Write(m_Prev.data(), m_Rows);
             }
         }
-- 
2.43.0


From ffb957d1624b66ad62a4315cec81f97924ea136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 045/171] fix: overflow in the size of predictor rows

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 0b07088..e42bfe0 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -57,16 +57,15 @@ public:
         m_CurrRowIndex = 0;
 
         // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
-        if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
-            || utls::DoesMultiplicationOverflow(m_ColumnCount, m_BitsPerComponent * m_Colors))
-        {
+        constexpr int64_t maxBits = 8ll * (numeric_limits<int>::max() - 1);
+        int64_t pixelBits = (int64_t)m_BitsPerComponent * m_Colors;
+        if (pixelBits > maxBits || pixelBits > maxBits / m_ColumnCount)
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-        }
 
         // A pixel counts as one byte at least, and rows are
         // padded to a whole number of bytes
-        m_BytesPerPixel = std::max(1, (m_BitsPerComponent * m_Colors) >> 3);
-        m_Rows = (int)(((int64_t)m_ColumnCount * m_Colors * m_BitsPerComponent + 7) >> 3);
+        m_BytesPerPixel = std::max(1, (int)(pixelBits >> 3));
+        m_Rows = (int)((m_ColumnCount * pixelBits + 7) >> 3);
 
         m_Prev.resize(m_Rows);
         memset(m_Prev.data(), 0, sizeof(char) * m_Rows);
-- 
2.43.0


From 2a01cdcde02ff7d18ee56c546cda40e39db3df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 046/171] fix: PdfString::FromHexData with an odd number of
 digits

---
 src/pdfmm/base/PdfString.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 283cf03..c69dea5 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -96,9 +96,9 @@ PdfString PdfString::FromHexData(const string_view& hexView, const PdfStatefulEn
 
     if (!low)
     {
-        // an odd number of bytes was read,
-        // so the last byte is 0
-        buffer.push_back(decodedChar);
+        // an odd number of digits was read,
+        // so the missing last one is 0
+        buffer.push_back((char)(decodedChar << 4));
     }
 
     if (encrypt.HasEncrypt())
-- 
2.43.0


From 4f25335e95cae855c21afe5ee6aa5ecbf36e81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:56 +0000
Subject: [PATCH 047/171] fix: a stream stayed locked after an attempt to read
 it with an unsupported filter

---
 src/pdfmm/base/PdfObjectStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index d39c47c..8955edb 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -404,8 +404,10 @@ PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectStream& stream, bool raw)
     : m_stream(&stream)
 {
-    m_stream->m_locked = true;
+    // NOTE: Lock the stream only after success, or it
+    // would stay locked if the filters are not supported
     m_input = stream.getInputStream(raw, m_MediaFilters, m_MediaDecodeParms);
+    m_stream->m_locked = true;
 }
 
 size_t PdfObjectInputStream::readBuffer(char* buffer, size_t size, bool& eof)
-- 
2.43.0


From 19b187d06ebf4d2efbb0273a10c37585b8b584e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:08 +0000
Subject: [PATCH 048/171] fix: AES input stream must report the end of the data
 only once everything was handed out

---
 src/pdfmm/base/PdfEncrypt.cpp | 170 ++++++++++++++++++++--------------
 1 file changed, 102 insertions(+), 68 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 7766088..dc2acd8 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -274,6 +274,8 @@ private:
  */
 class PdfAESInputStream : public InputStream
 {
+    static constexpr size_t CIPHER_BUFFER_SIZE = 4096;
+
 public:
     PdfAESInputStream(InputStream& inputStream, size_t inputLen, unsigned char* key, unsigned keylen) :
         m_InputStream(&inputStream),
@@ -281,7 +283,8 @@ public:
         m_inputEof(false),
         m_init(true),
         m_keyLen(keylen),
-        m_drainLeft(-1)
+        m_plainOffset(0),
+        m_plainSize(0)
     {
         m_ctx = EVP_CIPHER_CTX_new();
         if (m_ctx == nullptr)
@@ -298,88 +301,118 @@ public:
 protected:
     size_t readBuffer(char* buffer, size_t len, bool& eof) override
     {
-        int outlen = 0;
-        size_t drainLen;
-        size_t read;
-        if (m_inputEof)
-            goto DrainBuffer;
-
-        int rc;
-        if (m_init)
+        eof = false;
+        size_t count = 0;
+        while (count < len)
         {
-            // Read the initialization vector separately first
-            char iv[AES_IV_LENGTH];
-            bool streameof;
-            read = ReadBuffer(*m_InputStream, iv, AES_IV_LENGTH, streameof);
-            if (read != AES_IV_LENGTH)
-                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
-
-            const EVP_CIPHER* cipher;
-            switch (m_keyLen)
+            // Hand out first the data that has been already decrypted
+            size_t available = std::min(len - count, m_plainSize - m_plainOffset);
+            std::memcpy(buffer + count, m_plainBuffer.data() + m_plainOffset, available);
+            count += available;
+            m_plainOffset += available;
+            if (m_plainOffset == m_plainSize && !decryptBlocks())
             {
-                case (size_t)PdfKeyLength::L128 / 8:
-                {
-                    cipher = EVP_aes_128_cbc();
-                    break;
-                }
-#ifdef PDFMM_HAVE_LIBIDN
-                case (size_t)PdfKeyLength::L256 / 8:
+                eof = true;
+                break;
+            }
+        }
+
+        return count;
+    }
+
+private:
+    // Decrypt more data
+    // \returns false if there is no more data
+    bool decryptBlocks()
+    {
+        m_plainOffset = 0;
+        m_plainSize = 0;
+        while (m_plainSize == 0)
+        {
+            if (m_inputEof)
+                return false;
+
+            if (m_init)
+            {
+                // An empty stream may have no initialization vector
+                if (m_inputLen == 0)
                 {
-                    cipher = EVP_aes_256_cbc();
-                    break;
+                    m_inputEof = true;
+                    return false;
                 }
-#endif
-                default:
-                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Invalid AES key length");
+
+                initDecryption();
+                m_init = false;
             }
 
-            rc = EVP_DecryptInit_ex(m_ctx, cipher, nullptr, m_key, (unsigned char*)iv);
+            char cipherBuffer[CIPHER_BUFFER_SIZE];
+            bool streameof = false;
+            size_t read = ReadBuffer(*m_InputStream, cipherBuffer, std::min(CIPHER_BUFFER_SIZE, m_inputLen), streameof);
+            m_inputLen -= read;
+
+            // Quote openssl.org: "the decrypted data buffer out passed to EVP_DecryptUpdate() should have sufficient room
+            //  for (inl + cipher_block_size) bytes unless the cipher block size is 1 in which case inl bytes is sufficient."
+            // The final call may append another block
+            m_plainBuffer.resize(read + AES_BLOCK_SIZE * 2);
+            int outlen = 0;
+            int rc = EVP_DecryptUpdate(m_ctx, m_plainBuffer.data(), &outlen, (unsigned char*)cipherBuffer, (int)read);
             if (rc != 1)
-                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES encryption engine");
-
-            m_inputLen -= AES_IV_LENGTH;
-            m_init = false;
-        }
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data");
 
-        bool streameof;
-        read = ReadBuffer(*m_InputStream, buffer, std::min(len, m_inputLen), streameof);
-        m_inputLen -= read;
-
-        // Quote openssl.org: "the decrypted data buffer out passed to EVP_DecryptUpdate() should have sufficient room
-        //  for (inl + cipher_block_size) bytes unless the cipher block size is 1 in which case inl bytes is sufficient."
-        // So we need to create a buffer that is bigger than len.
-        m_tempBuffer.resize(len + AES_BLOCK_SIZE);
-        rc = EVP_DecryptUpdate(m_ctx, m_tempBuffer.data(), &outlen, (unsigned char*)buffer, (int)read);
+            m_plainSize = (size_t)outlen;
+            if (m_inputLen == 0 || streameof)
+            {
+                m_inputEof = true;
+                rc = EVP_DecryptFinal_ex(m_ctx, m_plainBuffer.data() + m_plainSize, &outlen);
+                if (rc != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data padding");
 
-        if (rc != 1)
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data");
+                m_plainSize += (size_t)outlen;
+            }
+        }
 
-        PDFMM_ASSERT((size_t)outlen <= len);
-        std::memcpy(buffer, m_tempBuffer.data(), (size_t)outlen);
+        return true;
+    }
 
-        if (m_inputLen == 0 || streameof)
+    void initDecryption()
+    {
+        // Read the initialization vector separately first
+        char iv[AES_IV_LENGTH];
+        size_t read = 0;
+        bool streameof = false;
+        if (m_inputLen >= AES_IV_LENGTH)
         {
-            m_inputEof = true;
+            while (read < AES_IV_LENGTH && !streameof)
+                read += ReadBuffer(*m_InputStream, iv + read, AES_IV_LENGTH - read, streameof);
+        }
 
-            int drainLeft;
-            rc = EVP_DecryptFinal_ex(m_ctx, m_tempBuffer.data(), &drainLeft);
-            if (rc != 1)
-                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data padding");
+        if (read != AES_IV_LENGTH)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
 
-            m_drainLeft = (size_t)drainLeft;
-            goto DrainBuffer;
+        const EVP_CIPHER* cipher;
+        switch (m_keyLen)
+        {
+            case (size_t)PdfKeyLength::L128 / 8:
+            {
+                cipher = EVP_aes_128_cbc();
+                break;
+            }
+#ifdef PDFMM_HAVE_LIBIDN
+            case (size_t)PdfKeyLength::L256 / 8:
+            {
+                cipher = EVP_aes_256_cbc();
+                break;
+            }
+#endif
+            default:
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Invalid AES key length");
         }
 
-        return outlen;
-
-    DrainBuffer:
-        drainLen = std::min(len - outlen, m_drainLeft);
-        std::memcpy(buffer + outlen, m_tempBuffer.data(), drainLen);
-        m_drainLeft -= (int)drainLen;
-        if (m_drainLeft == 0)
-            eof = true;
+        int rc = EVP_DecryptInit_ex(m_ctx, cipher, nullptr, m_key, (unsigned char*)iv);
+        if (rc != 1)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES encryption engine");
 
-        return outlen + drainLen;
+        m_inputLen -= AES_IV_LENGTH;
     }
 
 private:
@@ -390,8 +423,9 @@ private:
     bool m_init;
     unsigned char m_key[32];
     unsigned m_keyLen;
-    vector<unsigned char> m_tempBuffer;
-    size_t m_drainLeft;
+    vector<unsigned char> m_plainBuffer;
+    size_t m_plainOffset;
+    size_t m_plainSize;
 };
 
 }
-- 
2.43.0


From e89d7042a82b44e79d5b1fd1febb2060a5d7ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 049/171] fix: Use the key length supported by RC4 when
 creating an encryption

---
 src/pdfmm/base/PdfEncrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index dc2acd8..937475b 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1151,6 +1151,7 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
             intKeyLength = (intKeyLength >= 40) ? ((intKeyLength <= 128) ? intKeyLength : 128) : 40;
             m_rValue = 3;
             m_keyLength = intKeyLength / 8;
+            m_eKeyLength = static_cast<PdfKeyLength>(intKeyLength);
             break;
         }
         case PdfEncryptAlgorithm::RC4V1:
@@ -1158,6 +1159,7 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
         {
             m_rValue = 2;
             m_keyLength = 40 / 8;
+            m_eKeyLength = PdfKeyLength::L40;
             break;
         }
         case PdfEncryptAlgorithm::AESV2:
-- 
2.43.0


From 7dc73f8a728e539089e95dd80789e5217759e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 050/171] fix: Validate the values of the encryption dictionary

---
 src/pdfmm/base/PdfEncrypt.cpp | 46 +++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 937475b..819d9de 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -547,21 +547,41 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         throw e;
     }
 
+    // The values are copied to fixed size buffers
+    auto checkLength = [](const PdfString& value, size_t length)
+    {
+        if (value.GetState() != PdfStringState::RawBuffer || value.GetRawData().length() < length)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "A value of the encryption dictionary is too short");
+    };
+
+    // /EncryptMetadata is meaningful only if the version is 4 or greater
+    if (lV < 4)
+        encryptMetadata = true;
+
     if ((lV == 1) && (rValue == 2 || rValue == 3)
         && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::RC4V1))
     {
+        checkLength(oValue, 32);
+        checkLength(uValue, 32);
         return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V1, (int)PdfKeyLength::L40, encryptMetadata));
     }
     else if ((((lV == 2) && (rValue == 3)) || cfmName == "V2")
         && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::RC4V2))
     {
+        // Default value of the /Length key
+        if (length == 0)
+            length = lV == 4 ? (int)PdfKeyLength::L128 : (int)PdfKeyLength::L40;
+
         // length is int64_t. Please make changes in encryption algorithms
         // Check key length length here to prevent
         // stack-based buffer over-read later in this file
-        if (length > MD5_DIGEST_LENGTH * CHAR_BIT) // length in bits, md5 in bytes
+        if (length < (int)PdfKeyLength::L40 || length % CHAR_BIT != 0
+            || length > MD5_DIGEST_LENGTH * CHAR_BIT) // length in bits, md5 in bytes
         {
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Given key length too large for MD5");
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Given key length is invalid");
         }
+        checkLength(oValue, 32);
+        checkLength(uValue, 32);
         return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V2, static_cast<int>(length), encryptMetadata));
     }
     else
@@ -569,6 +589,8 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         if ((lV == 4) && (rValue == 4)
             && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV2))
         {
+            checkLength(oValue, 32);
+            checkLength(uValue, 32);
             return unique_ptr<PdfEncrypt>(new PdfEncryptAESV2(oValue, uValue, pValue, encryptMetadata));
         }
 #ifdef PDFMM_HAVE_LIBIDN
@@ -576,12 +598,19 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
             (rValue == 5 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3))
             || (rValue == 6 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3R6))))
         {
-            PdfString permsValue = encryptObj.GetDictionary().GetKey("Perms")->GetString();
-            PdfString oeValue = encryptObj.GetDictionary().GetKey("OE")->GetString();
-            PdfString ueValue = encryptObj.GetDictionary().GetKey("UE")->GetString();
-
-            return unique_ptr<PdfEncrypt>(new PdfEncryptAESV3(oValue, oeValue, uValue,
+            PdfString permsValue = encryptObj.GetDictionary().MustGetKey("Perms").GetString();
+            PdfString oeValue = encryptObj.GetDictionary().MustGetKey("OE").GetString();
+            PdfString ueValue = encryptObj.GetDictionary().MustGetKey("UE").GetString();
+            checkLength(oValue, 48);
+            checkLength(uValue, 48);
+            checkLength(permsValue, 16);
+            checkLength(oeValue, 32);
+            checkLength(ueValue, 32);
+
+            unique_ptr<PdfEncrypt> ret(new PdfEncryptAESV3(oValue, oeValue, uValue,
                 ueValue, pValue, permsValue, (PdfAESV3Revision)rValue));
+            ret->m_EncryptMetadata = encryptMetadata;
+            return ret;
         }
 #endif // PDFMM_HAVE_LIBIDN
         else
@@ -1686,6 +1715,9 @@ void PdfEncryptSHABase::CreateEncryptionDictionary(PdfDictionary& dictionary) co
     dictionary.AddKey("StrF", PdfName("StdCF"));
     dictionary.AddKey("StmF", PdfName("StdCF"));
 
+    if (!m_EncryptMetadata)
+        dictionary.AddKey("EncryptMetadata", PdfVariant(false));
+
     dictionary.AddKey("P", PdfVariant(static_cast<int64_t>(this->GetPValue())));
 }
     
-- 
2.43.0


From 15e3cf9f9319f60302c7758117d229594aff40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:21 +0000
Subject: [PATCH 051/171] fix: Use the user password when no owner password is
 set

---
 src/pdfmm/base/PdfEncrypt.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 819d9de..ae28572 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1067,7 +1067,8 @@ void PdfEncryptRC4::GenerateEncryptionKey(const string_view& documentId)
 
     // Pad passwords
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    // If there is no owner password, the user password shall be used instead
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1304,7 +1305,8 @@ void PdfEncryptAESV2::GenerateEncryptionKey(const string_view& documentId)
 
     // Pad passwords
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    // If there is no owner password, the user password shall be used instead
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1731,7 +1733,8 @@ void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
     size_t userpswdLen;
     size_t ownerpswdLen;
     PreprocessPassword(m_userPass, userpswd, userpswdLen);
-    PreprocessPassword(m_ownerPass, ownerpswd, ownerpswdLen);
+    // If there is no owner password, the user password shall be used instead
+    PreprocessPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd, ownerpswdLen);
 
     // Compute encryption key
     ComputeEncryptionKey();
-- 
2.43.0


From eb6d31ff2619b1f79ea4545afc81d11b5974c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:24 +0000
Subject: [PATCH 052/171] fix: Keep the encryption of a loaded document when
 saving it again

---
 src/pdfmm/base/PdfEncrypt.cpp     | 13 +++++++++----
 src/pdfmm/base/PdfEncrypt.h       | 10 ++++++++++
 src/pdfmm/base/PdfMemDocument.cpp |  5 ++---
 src/pdfmm/base/PdfParser.cpp      |  6 +++++-
 src/pdfmm/base/PdfWriter.cpp      | 32 +++++++++++++++++++++++++------
 src/pdfmm/base/PdfWriter.h        |  1 +
 6 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index ae28572..eaf1b46 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -435,11 +435,14 @@ PdfEncrypt::~PdfEncrypt() { }
 void PdfEncrypt::GenerateEncryptionKey(const PdfString& documentId)
 {
     GenerateEncryptionKey(documentId.GetRawData());
+    m_authenticated = false;
 }
 
 bool PdfEncrypt::Authenticate(const string_view& password, const PdfString& documentId)
 {
-    return Authenticate(password, documentId.GetRawData());
+    m_authenticated = Authenticate(password, documentId.GetRawData());
+    m_documentId = documentId.GetRawData();
+    return m_authenticated;
 }
 
 PdfEncryptAlgorithm PdfEncrypt::GetEnabledEncryptionAlgorithms()
@@ -645,7 +648,8 @@ PdfEncrypt::PdfEncrypt() :
     m_keyLength(0),
     m_rValue(0),
     m_pValue(PdfPermissions::None),
-    m_EncryptMetadata(true)
+    m_EncryptMetadata(true),
+    m_authenticated(false)
 {
     memset(m_uValue, 0, 48);
     memset(m_oValue, 0, 48);
@@ -666,6 +670,7 @@ PdfEncrypt::PdfEncrypt(const PdfEncrypt& rhs)
     m_userPass = rhs.m_userPass;
     m_ownerPass = rhs.m_ownerPass;
     m_EncryptMetadata = rhs.m_EncryptMetadata;
+    m_authenticated = rhs.m_authenticated;
 }
 
 bool PdfEncrypt::CheckKey(unsigned char key1[32], unsigned char key2[32])
@@ -1024,7 +1029,7 @@ void PdfEncryptMD5Base::CreateEncryptionDictionary(PdfDictionary& dictionary) co
             stdCf.AddKey("CFM", PdfName("V2"));
         else
             stdCf.AddKey("CFM", PdfName("AESV2"));
-        stdCf.AddKey("Length", static_cast<int64_t>(16));
+        stdCf.AddKey("Length", static_cast<int64_t>(m_keyLength));
 
         dictionary.AddKey("O", PdfString::FromRaw({ reinterpret_cast<const char*>(this->GetOValue()), 32 }));
         dictionary.AddKey("U", PdfString::FromRaw({ reinterpret_cast<const char*>(this->GetUValue()), 32 }));
@@ -1038,7 +1043,7 @@ void PdfEncryptMD5Base::CreateEncryptionDictionary(PdfDictionary& dictionary) co
 
         dictionary.AddKey("V", static_cast<int64_t>(4));
         dictionary.AddKey("R", static_cast<int64_t>(4));
-        dictionary.AddKey("Length", static_cast<int64_t>(128));
+        dictionary.AddKey("Length", static_cast<int64_t>(m_keyLength) * 8);
         if (!m_EncryptMetadata)
             dictionary.AddKey("EncryptMetadata", PdfVariant(false));
     }
diff --git a/src/pdfmm/base/PdfEncrypt.h b/src/pdfmm/base/PdfEncrypt.h
index d4cb626..569f848 100644
--- a/src/pdfmm/base/PdfEncrypt.h
+++ b/src/pdfmm/base/PdfEncrypt.h
@@ -250,6 +250,15 @@ public:
      */
     inline bool IsOwnerPasswordSet() const { return !m_ownerPass.empty(); }
 
+    /** True if the encryption key is available, because the
+     * encryption was read from a document and the password was correct
+     */
+    inline bool IsAuthenticated() const { return m_authenticated; }
+
+    /** The first identifier of the document the encryption was read from
+     */
+    inline const std::string& GetDocumentId() const { return m_documentId; }
+
 
     /** Checks if printing this document is allowed.
      *  Every PDF consuming applications has to adhere this value!
@@ -398,6 +407,7 @@ protected:
     unsigned char m_encryptionKey[32]; // Encryption key
     std::string m_documentId;          // DocumentID of the current document
     bool m_EncryptMetadata;            // Is metadata encrypted
+    bool m_authenticated;              // Is the encryption key the one of a loaded document
 
 private:
     static PdfEncryptAlgorithm s_EnabledEncryptionAlgorithms; // Or'ed int containing the enabled encryption algorithms
diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 5edb1f2..b95198e 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -62,9 +62,8 @@ PdfMemDocument::PdfMemDocument(const PdfMemDocument& rhs) :
     m_HasXRefStream(rhs.m_HasXRefStream),
     m_PrevXRefOffset(rhs.m_PrevXRefOffset)
 {
-    auto encryptObj = GetTrailer().GetDictionary().FindKey("Encrypt");
-    if (encryptObj != nullptr)
-        m_Encrypt = PdfEncrypt::CreateFromObject(*encryptObj);
+    if (rhs.m_Encrypt != nullptr)
+        m_Encrypt = PdfEncrypt::CreateFromEncrypt(*rhs.m_Encrypt);
 }
 
 void PdfMemDocument::Clear()
diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index df7625f..16494f2 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -893,7 +893,11 @@ const PdfString& PdfParser::GetDocumentId()
     if (!m_Trailer->GetDictionary().HasKey("ID"))
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "No document ID found in trailer");
 
-    return m_Trailer->GetDictionary().GetKey("ID")->GetArray()[0].GetString();
+    auto& idObj = *m_Trailer->GetDictionary().GetKey("ID");
+    if (!idObj.IsArray() || idObj.GetArray().GetSize() == 0 || !idObj.GetArray()[0].IsString())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "Invalid document ID found in trailer");
+
+    return idObj.GetArray()[0].GetString();
 }
 
 void PdfParser::UpdateDocumentVersion()
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 27d09ad..6b41f38 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -38,7 +38,8 @@ PdfWriter::PdfWriter(PdfIndirectObjectList* objects, const PdfObject& trailer, P
     m_WriteFlags(PdfWriteFlags::None),
     m_PrevXRefOffset(0),
     m_IncrementalUpdate(false),
-    m_rewriteXRefTable(false)
+    m_rewriteXRefTable(false),
+    m_keepOriginalIdentifier(false)
 {
 }
 
@@ -74,9 +75,28 @@ void PdfWriter::Write(OutputStreamDevice& device)
     CreateFileIdentifier(m_identifier, *m_Trailer, &m_originalIdentifier);
 
     // setup encrypt dictionary
-    if (m_Encrypt != nullptr)
+    if (m_Encrypt == nullptr)
     {
-        m_Encrypt->GenerateEncryptionKey(m_identifier);
+        if (m_IncrementalUpdate && m_Trailer->GetDictionary().HasKey("Encrypt"))
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Can't remove the encryption with an incremental update");
+    }
+    else
+    {
+        if (m_Encrypt->IsAuthenticated())
+        {
+            // Keep the encryption key and both passwords of the loaded
+            // document. They are tied to the original identifier
+            m_originalIdentifier = PdfString::FromRaw(m_Encrypt->GetDocumentId());
+            m_keepOriginalIdentifier = true;
+        }
+        else if (m_IncrementalUpdate)
+        {
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Can't change the encryption with an incremental update");
+        }
+        else
+        {
+            m_Encrypt->GenerateEncryptionKey(m_identifier);
+        }
 
         // Add our own Encryption dictionary
         m_EncryptObj = &m_Objects->CreateDictionaryObject();
@@ -200,7 +220,7 @@ void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySize
 
         PdfArray array;
         // The ID is the same unless the PDF was incrementally updated
-        if (m_IncrementalUpdate && !m_originalIdentifier.IsEmpty())
+        if (m_keepOriginalIdentifier || (m_IncrementalUpdate && !m_originalIdentifier.IsEmpty()))
             array.Add(m_originalIdentifier);
         else
             array.Add(m_identifier);
@@ -226,13 +246,13 @@ void PdfWriter::CreateFileIdentifier(PdfString& identifier, const PdfObject& tra
 
     const PdfObject* idObj;
     if (originalIdentifier != nullptr &&
-        (idObj = trailer.GetDictionary().FindKey("ID")) != nullptr)
+        (idObj = trailer.GetDictionary().FindKey("ID")) != nullptr && idObj->IsArray())
     {
         auto it = idObj->GetArray().begin();
         PdfString str;
         if (it != idObj->GetArray().end() && it->TryGetString(str))
         {
-            if (str.IsHex())
+            if (str.IsHex() || str.GetState() != PdfStringState::RawBuffer)
                 *originalIdentifier = it->GetString();
             else
                 *originalIdentifier = PdfString::FromRaw(it->GetString().GetRawData());
diff --git a/src/pdfmm/base/PdfWriter.h b/src/pdfmm/base/PdfWriter.h
index 6b4ce3e..2b5a6c8 100644
--- a/src/pdfmm/base/PdfWriter.h
+++ b/src/pdfmm/base/PdfWriter.h
@@ -192,6 +192,7 @@ private:
     int64_t m_PrevXRefOffset;
     bool m_IncrementalUpdate;
     bool m_rewriteXRefTable; // Only used if incremental update
+    bool m_keepOriginalIdentifier;             // The first identifier has to be preserved
 };
 
 };
-- 
2.43.0


From 0827ee99c8e418ad4c25f0eb007493d471b55f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:38 +0000
Subject: [PATCH 053/171] fix: Don't encrypt streams with a Crypt filter when
 the metadata is not encrypted

---
 src/pdfmm/base/PdfObject.cpp       | 18 +++++++++++++++---
 src/pdfmm/base/PdfParserObject.cpp | 12 +++---------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 65d6e0e..2aec63a 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -231,6 +231,18 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         }
     }
 
+    // If the metadata is not encrypted, the streams
+    // with a "Crypt" filter are not encrypted either
+    PdfStatefulEncrypt streamEncrypt = encrypt;
+    if (encrypt.HasEncrypt() && m_Stream != nullptr && !encrypt_->IsMetadataEncrypted())
+    {
+        for (auto filter : m_Stream->GetFilters())
+        {
+            if (filter == PdfFilterType::Crypt)
+                streamEncrypt = PdfStatefulEncrypt();
+        }
+    }
+
     if (m_Stream != nullptr)
     {
         // Try to compress the flate compress the stream if it has no filters,
@@ -259,8 +271,8 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         if (!m_Stream->GetProvider().IsLengthHandled())
         {
             size_t length = m_Stream->GetLength();
-            if (encrypt.HasEncrypt())
-                length = encrypt.CalculateStreamLength(length);
+            if (streamEncrypt.HasEncrypt())
+                length = streamEncrypt.CalculateStreamLength(length);
 
             // Add the key without triggering SetDirty
             const_cast<PdfObject&>(*this).m_Variant.GetDictionary()
@@ -272,7 +284,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
     device.Write('\n');
 
     if (m_Stream != nullptr)
-        m_Stream->Write(device, encrypt);
+        m_Stream->Write(device, streamEncrypt);
 
     if (m_IndirectReference.IsIndirect())
         device.Write("endobj\n");
diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index 14ba48d..ef41a07 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -219,16 +219,10 @@ ReadStream:
     if (m_Encrypt != nullptr && !m_Encrypt->IsMetadataEncrypted())
     {
         // If metadata is not encrypted the Filter is set to "Crypt"
-        auto filterObj = this->m_Variant.GetDictionary().FindKey(PdfName::KeyFilter);
-        if (filterObj != nullptr && filterObj->IsArray())
+        for (auto filter : PdfFilterFactory::CreateFilterList(*this))
         {
-            auto& filters = filterObj->GetArray();
-            for (unsigned i = 0; i < filters.GetSize(); i++)
-            {
-                auto& obj = filters.MustFindAt(i);
-                if (obj.IsName() && obj.GetName() == "Crypt")
-                    m_Encrypt = nullptr;
-            }
+            if (filter == PdfFilterType::Crypt)
+                m_Encrypt = nullptr;
         }
     }
 
-- 
2.43.0


From 38cf0ba7eaad9768a4b74bd104d18534517c499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:27 +0000
Subject: [PATCH 054/171] fix: Don't encrypt the contents of signature
 dictionaries

---
 src/pdfmm/base/PdfDictionary.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 39fd840..6dd38df 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -211,6 +211,15 @@ void PdfDictionary::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
             device.Write('\n');
     }
 
+    // The hex string "Contents" of signature dictionaries is not encrypted
+    PdfStatefulEncrypt contentsEncrypt = encrypt;
+    auto typeObj = this->getKey(PdfName::KeyType);
+    if (typeObj != nullptr && typeObj->IsName()
+        && (typeObj->GetName() == "Sig" || typeObj->GetName() == "DocTimeStamp"))
+    {
+        contentsEncrypt = PdfStatefulEncrypt();
+    }
+
     for (auto& pair : m_Map)
     {
         if (pair.first != PdfName::KeyType)
@@ -219,7 +228,9 @@ void PdfDictionary::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
             if ((writeMode & PdfWriteFlags::Clean) == PdfWriteFlags::Clean)
                 device.Write(' '); // write a separator
 
-            pair.second.GetVariant().Write(device, writeMode, encrypt, buffer);
+            bool isHexContents = pair.first == PdfName::KeyContents
+                && pair.second.IsString() && pair.second.GetString().IsHex();
+            pair.second.GetVariant().Write(device, writeMode, isHexContents ? contentsEncrypt : encrypt, buffer);
             if ((writeMode & PdfWriteFlags::Clean) == PdfWriteFlags::Clean)
                 device.Write('\n');
         }
-- 
2.43.0


From 9158b7a276a4c43735bfbe2c827cec4619908361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:08 +0000
Subject: [PATCH 055/171] fix: Keep the encryption loaded objects were read
 with when the encryption is replaced

---
 src/pdfmm/base/PdfMemDocument.cpp | 8 +++++++-
 src/pdfmm/base/PdfMemDocument.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index b95198e..68071c8 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -78,6 +78,7 @@ void PdfMemDocument::clear()
     m_HasXRefStream = false;
     m_PrevXRefOffset = -1;
     m_Encrypt = nullptr;
+    m_LoadEncrypt = nullptr;
     m_device = nullptr;
 }
 
@@ -324,11 +325,16 @@ void PdfMemDocument::SetEncrypted(const string_view& userPassword, const string_
     PdfPermissions protection, PdfEncryptAlgorithm algorithm,
     PdfKeyLength keyLength)
 {
-    m_Encrypt = PdfEncrypt::Create(userPassword, ownerPassword, protection, algorithm, keyLength);
+    SetEncrypt(PdfEncrypt::Create(userPassword, ownerPassword, protection, algorithm, keyLength));
 }
 
 void PdfMemDocument::SetEncrypt(unique_ptr<PdfEncrypt>&& encrypt)
 {
+    // The loaded objects may still need the encryption
+    // they were read with, so keep it for them
+    if (m_LoadEncrypt == nullptr)
+        m_LoadEncrypt = std::move(m_Encrypt);
+
     m_Encrypt = std::move(encrypt);
 }
 
diff --git a/src/pdfmm/base/PdfMemDocument.h b/src/pdfmm/base/PdfMemDocument.h
index b500748..d80cae8 100644
--- a/src/pdfmm/base/PdfMemDocument.h
+++ b/src/pdfmm/base/PdfMemDocument.h
@@ -252,6 +252,7 @@ private:
     bool m_HasXRefStream;
     int64_t m_PrevXRefOffset;
     std::unique_ptr<PdfEncrypt> m_Encrypt;
+    std::unique_ptr<PdfEncrypt> m_LoadEncrypt; // Loaded encryption that was replaced, still used by objects not yet read
     std::shared_ptr<InputStreamDevice> m_device;
 };
 
-- 
2.43.0


From f2ed449b427353a12e80a8f5fa9742cca260cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 056/171] fix: Keep page indices up to date and move pages
 instead of copying the document

---
 src/pdfmm/base/PdfPage.cpp           | 26 +++++++++-------
 src/pdfmm/base/PdfPage.h             |  8 ++++-
 src/pdfmm/base/PdfPageCollection.cpp | 45 +++++++++++++++++++++++-----
 src/pdfmm/base/PdfPageCollection.h   | 15 ++++++++++
 src/pdfmm/base/PdfPageTreeCache.cpp  | 24 +++++++++++++++
 src/pdfmm/base/PdfPageTreeCache.h    | 11 +++++++
 6 files changed, 110 insertions(+), 19 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 04bc157..b2f696e 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -212,20 +212,24 @@ void PdfPage::SetRotationRaw(int rotation)
 
 void PdfPage::MoveAt(unsigned index)
 {
-    // TODO: CHECK-ME FOR CORRECT WORKING
-    auto& doc = GetDocument();
-    auto& pages = doc.GetPages();
-    unsigned fromIndex = m_Index;
-    pages.InsertDocumentPageAt(index, doc, m_Index);
-    if (index < fromIndex)
+    GetDocument().GetPages().movePage(m_Index, index);
+}
+
+void PdfPage::setInheritedAttributes()
+{
+    static const string_view inheritableAttributes[] = { "Resources", "MediaBox", "CropBox", "Rotate" };
+
+    auto& dict = GetDictionary();
+    for (auto& attribute : inheritableAttributes)
     {
-        // If we inserted the page before the old 
-        // position we have to increment the from position
-        fromIndex++;
+        auto obj = dict.FindKeyParent(attribute);
+        if (obj != nullptr && obj != dict.FindKey(attribute))
+            dict.AddKeyIndirectSafe(PdfName(attribute), *obj);
     }
 
-    pages.RemovePageAt(fromIndex);
-    m_Index = fromIndex;
+    auto resources = dict.FindKey("Resources");
+    if (resources != nullptr)
+        m_Resources.reset(new PdfResources(*resources));
 }
 
 PdfField& PdfPage::CreateField(const string_view& name, PdfFieldType fieldType, const PdfRect& rect)
diff --git a/src/pdfmm/base/PdfPage.h b/src/pdfmm/base/PdfPage.h
index e8950bd..1ac5edb 100644
--- a/src/pdfmm/base/PdfPage.h
+++ b/src/pdfmm/base/PdfPage.h
@@ -47,6 +47,7 @@ class PDFMM_API PdfPage final : public PdfDictionaryElement, public PdfCanvas
 {
     PDFMM_UNIT_TEST(PdfPageTest);
     friend class PdfPageCollection;
+    friend class PdfPageTreeCache;
 
 private:
     /** Create a new PdfPage object.
@@ -157,7 +158,8 @@ public:
      */
     void SetRotationRaw(int rotation);
 
-    /** Move the page at the given index
+    /** Move the page, so it's at the given index of the page sequence
+     *  The last index is used if the given one is higher
      */
     void MoveAt(unsigned index);
 
@@ -212,6 +214,10 @@ private:
      */
     void initNewPage(const PdfRect& size);
 
+    /** Set on the page the attributes inherited from its ancestors
+     */
+    void setInheritedAttributes();
+
     void ensureContentsCreated();
     void ensureResourcesCreated();
 
diff --git a/src/pdfmm/base/PdfPageCollection.cpp b/src/pdfmm/base/PdfPageCollection.cpp
index 8ac90ad..269ee93 100644
--- a/src/pdfmm/base/PdfPageCollection.cpp
+++ b/src/pdfmm/base/PdfPageCollection.cpp
@@ -109,6 +109,13 @@ void PdfPageCollection::InsertPageAt(unsigned atIndex, PdfObject& pageObj)
 }
 
 void PdfPageCollection::InsertPagesAt(unsigned atIndex, const vector<PdfObject*>& pages)
+{
+    atIndex = std::min(atIndex, this->GetCount());
+    if (insertPagesInTree(atIndex, pages))
+        m_cache.InsertPlaceHolders(atIndex, (unsigned)pages.size());
+}
+
+bool PdfPageCollection::insertPagesInTree(unsigned atIndex, const vector<PdfObject*>& pages)
 {
     bool insertAfterPivot = false;
     PdfObjectList parents;
@@ -138,7 +145,7 @@ void PdfPageCollection::InsertPagesAt(unsigned atIndex, const vector<PdfObject*>
             mm::LogMessage(PdfLogSeverity::Error,
                 "Cannot find page {} or page {} has no parents. Cannot insert new page",
                 atIndex, atIndex);
-            return;
+            return false;
         }
         else
         {
@@ -156,7 +163,7 @@ void PdfPageCollection::InsertPagesAt(unsigned atIndex, const vector<PdfObject*>
         insertPagesIntoNode(*parentNode, parents, insertAfterPivot ? posInKids : posInKids - 1, pages);
     }
 
-    m_cache.InsertPlaceHolders(atIndex, (unsigned)pages.size());
+    return true;
 }
 
 PdfPage& PdfPageCollection::CreatePage(const PdfRect& size)
@@ -197,10 +204,38 @@ void PdfPageCollection::InsertDocumentPageAt(unsigned atIndex, const PdfDocument
 
 void PdfPageCollection::RemovePageAt(unsigned atIndex)
 {
+    // Delete from pages tree
+    removePageFromTree(atIndex);
+
     // Delete from cache
     m_cache.DeletePage(atIndex);
 
-    // Delete from pages tree
+    // After removing the page the /OpenAction entry may be invalidated,
+    // prompting an error using Acrobat. Remove it for safer behavior
+    GetDocument().GetCatalog().GetDictionary().RemoveKey("OpenAction");
+}
+
+void PdfPageCollection::movePage(unsigned fromIndex, unsigned toIndex)
+{
+    unsigned count = this->GetCount();
+    if (fromIndex >= count)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
+
+    toIndex = std::min(toIndex, count - 1);
+    if (fromIndex == toIndex)
+        return;
+
+    // The page may have other ancestors at the new position
+    auto& page = getPage(fromIndex);
+    page.setInheritedAttributes();
+
+    removePageFromTree(fromIndex);
+    insertPagesInTree(toIndex, { &page.GetObject() });
+    m_cache.MovePage(fromIndex, toIndex);
+}
+
+void PdfPageCollection::removePageFromTree(unsigned atIndex)
+{
     PdfObjectList parents;
     auto pageNode = this->getPageNode(atIndex, this->GetRoot(), parents);
     if (pageNode == nullptr)
@@ -224,10 +259,6 @@ void PdfPageCollection::RemovePageAt(unsigned atIndex)
             atIndex);
         PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
     }
-
-    // After removing the page the /OpenAction entry may be invalidated,
-    // prompting an error using Acrobat. Remove it for safer behavior
-    GetDocument().GetCatalog().GetDictionary().RemoveKey("OpenAction");
 }
 
 PdfObject* PdfPageCollection::getPageNode(unsigned index, PdfObject& parent,
diff --git a/src/pdfmm/base/PdfPageCollection.h b/src/pdfmm/base/PdfPageCollection.h
index 2d19fc5..21461b6 100644
--- a/src/pdfmm/base/PdfPageCollection.h
+++ b/src/pdfmm/base/PdfPageCollection.h
@@ -134,6 +134,21 @@ private:
 private:
     using PdfObjectList = std::deque<PdfObject*>;
 
+private:
+    /**
+     * Move a page inside of the tree
+     * \param fromIndex index of the page
+     * \param toIndex index of the page after it was moved
+     * \remarks Can be used by PdfPage
+     */
+    void movePage(unsigned fromIndex, unsigned toIndex);
+
+    // Insert the pages in the tree, without updating the cache. Returns false if it was not possible
+    bool insertPagesInTree(unsigned atIndex, const std::vector<PdfObject*>& pages);
+
+    // Remove the page from the tree, without updating the cache
+    void removePageFromTree(unsigned atIndex);
+
 private:
     PdfPage& getPage(unsigned index);
     PdfPage& getPage(const PdfReference& ref);
diff --git a/src/pdfmm/base/PdfPageTreeCache.cpp b/src/pdfmm/base/PdfPageTreeCache.cpp
index 46f6bad..4cd7844 100644
--- a/src/pdfmm/base/PdfPageTreeCache.cpp
+++ b/src/pdfmm/base/PdfPageTreeCache.cpp
@@ -67,6 +67,8 @@ void PdfPageTreeCache::InsertPlaceHolders(unsigned atIndex, unsigned count)
 
     for (unsigned i = 0; i < count; i++)
         m_PageObjs.insert(m_PageObjs.begin() + atIndex + i, static_cast<PdfPage*>(nullptr));
+
+    updateIndices(atIndex + count);
 }
 
 void PdfPageTreeCache::DeletePage(unsigned atIndex)
@@ -76,6 +78,28 @@ void PdfPageTreeCache::DeletePage(unsigned atIndex)
 
     delete m_PageObjs[atIndex];
     m_PageObjs.erase(m_PageObjs.begin() + atIndex);
+    updateIndices(atIndex);
+}
+
+void PdfPageTreeCache::MovePage(unsigned fromIndex, unsigned toIndex)
+{
+    unsigned maxIndex = std::max(fromIndex, toIndex);
+    if (maxIndex >= m_PageObjs.size())
+        m_PageObjs.resize((size_t)maxIndex + 1);
+
+    PdfPage* page = m_PageObjs[fromIndex];
+    m_PageObjs.erase(m_PageObjs.begin() + fromIndex);
+    m_PageObjs.insert(m_PageObjs.begin() + toIndex, page);
+    updateIndices(std::min(fromIndex, toIndex));
+}
+
+void PdfPageTreeCache::updateIndices(unsigned fromIndex)
+{
+    for (size_t i = fromIndex; i < m_PageObjs.size(); i++)
+    {
+        if (m_PageObjs[i] != nullptr)
+            m_PageObjs[i]->m_Index = (unsigned)i;
+    }
 }
 
 void PdfPageTreeCache::ClearCache()
diff --git a/src/pdfmm/base/PdfPageTreeCache.h b/src/pdfmm/base/PdfPageTreeCache.h
index cd01bf1..8163632 100644
--- a/src/pdfmm/base/PdfPageTreeCache.h
+++ b/src/pdfmm/base/PdfPageTreeCache.h
@@ -67,12 +67,23 @@ public:
      */
     void DeletePage(unsigned atIndex);
 
+    /**
+     * Move a PdfPage of the cache, so it's at the given new index
+     * \param fromIndex index of the page
+     * \param toIndex index of the page after it was moved
+     */
+    void MovePage(unsigned fromIndex, unsigned toIndex);
+
     /**
      * Clear cache, i.e. remove all elements from the
      * cache.
      */
     void ClearCache();
 
+private:
+    // Tell the pages starting from the given index at which index they are
+    void updateIndices(unsigned fromIndex);
+
 private:
     List m_PageObjs;
 };
-- 
2.43.0


From f84b3dde41d30ceeb2814491d59d3a537eb831e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 057/171] fix: Use the resources of the nearest ancestor of a
 page

---
 src/pdfmm/base/PdfPage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index b2f696e..f7762e2 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -520,8 +520,8 @@ PdfResources* getResources(PdfObject& obj, const deque<PdfObject*>& listOfParent
     if (resources == nullptr)
     {
         // Resources might be inherited
-        for (auto& parent : listOfParents)
-            resources = parent->GetDictionary().FindKey("Resources");
+        for (auto it = listOfParents.rbegin(); it != listOfParents.rend() && resources == nullptr; it++)
+            resources = (*it)->GetDictionary().FindKey("Resources");
     }
 
     if (resources == nullptr)
-- 
2.43.0


From 0372da696c181c39f15bde192cddc60a2eceb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 058/171] fix: Set the page width and height on the page itself

---
 src/pdfmm/base/PdfPage.cpp | 77 +++++++++-----------------------------
 src/pdfmm/base/PdfPage.h   |  2 +
 2 files changed, 20 insertions(+), 59 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index f7762e2..ebf1dee 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -246,73 +246,32 @@ PdfField& PdfPage::createField(const string_view& name, const type_info& typeInf
 
 bool PdfPage::SetPageWidth(int newWidth)
 {
-    // Take advantage of inherited values - walking up the tree if necessary
-    auto mediaBoxObj = GetDictionary().FindKeyParent("MediaBox");
-
-    // assign the value of the box from the array
-    if (mediaBoxObj != nullptr && mediaBoxObj->IsArray())
-    {
-        auto& mediaBoxArr = mediaBoxObj->GetArray();
-
-        // in PdfRect::FromArray(), the Left value is subtracted from Width
-        double dLeftMediaBox = mediaBoxArr[0].GetReal();
-        mediaBoxArr[2] = PdfObject(newWidth + dLeftMediaBox);
-
-        // Take advantage of inherited values - walking up the tree if necessary
-        auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
-
-        if (cropBoxObj != nullptr && cropBoxObj->IsArray())
-        {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Left value is subtracted from Width
-            double dLeftCropBox = cropBoxArr[0].GetReal();
-            cropBoxArr[2] = PdfObject(newWidth + dLeftCropBox);
-            return true;
-        }
-        else
-        {
-            return false;
-        }
-    }
-    else
-    {
-        return false;
-    }
+    return setPageSize([newWidth](PdfRect& box) { box.SetWidth(newWidth); });
 }
 
 bool PdfPage::SetPageHeight(int newHeight)
 {
-    // Take advantage of inherited values - walking up the tree if necessary
-    auto obj = GetDictionary().FindKeyParent("MediaBox");
+    return setPageSize([newHeight](PdfRect& box) { box.SetHeight(newHeight); });
+}
 
-    // assign the value of the box from the array
-    if (obj != nullptr && obj->IsArray())
+bool PdfPage::setPageSize(const function<void(PdfRect&)>& setSize)
+{
+    // The boxes may be inherited or shared: always set
+    // them on the page, so no other page is modified
+    for (auto& boxName : { "MediaBox", "CropBox" })
     {
-        auto& mediaBoxArr = obj->GetArray();
-        // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-        double bottom = mediaBoxArr[1].GetReal();
-        mediaBoxArr[3] = PdfObject(newHeight + bottom);
-
-        // Take advantage of inherited values - walking up the tree if necessary
-        auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
-
-        if (cropBoxObj != nullptr && cropBoxObj->IsArray())
-        {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-            double dBottomCropBox = cropBoxArr[1].GetReal();
-            cropBoxArr[3] = PdfObject(newHeight + dBottomCropBox);
-            return true;
-        }
-        else
-        {
+        auto obj = GetDictionary().FindKeyParent(boxName);
+        if (obj == nullptr || !obj->IsArray())
             return false;
-        }
-    }
-    else
-    {
-        return false;
+
+        PdfRect box(obj->GetArray());
+        setSize(box);
+        PdfArray arr;
+        box.ToArray(arr);
+        GetDictionary().AddKey(PdfName(boxName), arr);
     }
+
+    return true;
 }
 
 void PdfPage::SetMediaBox(const PdfRect& size)
diff --git a/src/pdfmm/base/PdfPage.h b/src/pdfmm/base/PdfPage.h
index 1ac5edb..446fc56 100644
--- a/src/pdfmm/base/PdfPage.h
+++ b/src/pdfmm/base/PdfPage.h
@@ -218,6 +218,8 @@ private:
      */
     void setInheritedAttributes();
 
+    bool setPageSize(const std::function<void(PdfRect&)>& setSize);
+
     void ensureContentsCreated();
     void ensureResourcesCreated();
 
-- 
2.43.0


From 642026c038c20f5566268f4025c7134d29205c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 059/171] fix: Handle null values and indirect elements in
 inherited page attributes

---
 src/pdfmm/base/PdfDictionary.cpp | 3 ++-
 src/pdfmm/base/PdfPage.cpp       | 7 ++++---
 src/pdfmm/base/PdfRect.cpp       | 8 ++++----
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 6dd38df..9ab1c23 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -149,8 +149,9 @@ PdfObject* PdfDictionary::findKey(const string_view& key) const
 
 PdfObject* PdfDictionary::findKeyParent(const string_view& key) const
 {
+    // NOTE: A null value is equivalent to an absent entry
     PdfObject* obj = findKey(key);
-    if (obj == nullptr)
+    if (obj == nullptr || obj->IsNull())
     {
         PdfObject* parent = findKey("Parent");
         if (parent == nullptr)
diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index ebf1dee..979f056 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -475,15 +475,16 @@ int normalize(int value, int start, int end)
 
 PdfResources* getResources(PdfObject& obj, const deque<PdfObject*>& listOfParents)
 {
+    // NOTE: A null value is equivalent to an absent entry
     auto resources = obj.GetDictionary().FindKey("Resources");
-    if (resources == nullptr)
+    if (resources == nullptr || resources->IsNull())
     {
         // Resources might be inherited
-        for (auto it = listOfParents.rbegin(); it != listOfParents.rend() && resources == nullptr; it++)
+        for (auto it = listOfParents.rbegin(); it != listOfParents.rend() && (resources == nullptr || resources->IsNull()); it++)
             resources = (*it)->GetDictionary().FindKey("Resources");
     }
 
-    if (resources == nullptr)
+    if (resources == nullptr || resources->IsNull())
         return nullptr;
 
     return new PdfResources(*resources);
diff --git a/src/pdfmm/base/PdfRect.cpp b/src/pdfmm/base/PdfRect.cpp
index e929903..51b1a30 100644
--- a/src/pdfmm/base/PdfRect.cpp
+++ b/src/pdfmm/base/PdfRect.cpp
@@ -74,10 +74,10 @@ void PdfRect::FromArray(const PdfArray& arr)
 {
     if (arr.size() == 4)
     {
-        double x1 = arr[0].GetReal();
-        double y1 = arr[1].GetReal();
-        double x2 = arr[2].GetReal();
-        double y2 = arr[3].GetReal();
+        double x1 = arr.MustFindAt(0).GetReal();
+        double y1 = arr.MustFindAt(1).GetReal();
+        double x2 = arr.MustFindAt(2).GetReal();
+        double y2 = arr.MustFindAt(3).GetReal();
 
         CreateRect(x1, y1, x2, y2, m_Left, m_Bottom, m_Width, m_Height);
     }
-- 
2.43.0


From f760c1ade25210f6d225f3f36251ea4a1796cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 060/171] fix: Shield inserted pages from the attributes of
 their new ancestors

---
 src/pdfmm/base/PdfPageCollection.cpp | 25 +++++++++++++++++++++++++
 src/pdfmm/base/PdfPageCollection.h   |  4 ++++
 2 files changed, 29 insertions(+)

diff --git a/src/pdfmm/base/PdfPageCollection.cpp b/src/pdfmm/base/PdfPageCollection.cpp
index 269ee93..78cd0f3 100644
--- a/src/pdfmm/base/PdfPageCollection.cpp
+++ b/src/pdfmm/base/PdfPageCollection.cpp
@@ -461,7 +461,32 @@ void PdfPageCollection::insertPagesIntoNode(PdfObject& parent, const PdfObjectLi
 
     // 3. add parent key to each of the pages
     for (vector<PdfObject*>::const_iterator itPages = pages.begin(); itPages != pages.end(); itPages++)
+    {
         (*itPages)->GetDictionary().AddKey("Parent", parent.GetIndirectReference());
+        setDefaultAttributes((*itPages)->GetDictionary());
+    }
+}
+
+void PdfPageCollection::setDefaultAttributes(PdfDictionary& page)
+{
+    auto isInherited = [&page](const string_view& attribute)
+    {
+        auto obj = page.FindKey(attribute);
+        return (obj == nullptr || obj->IsNull()) && page.FindKeyParent(attribute) != nullptr;
+    };
+
+    if (isInherited("CropBox"))
+    {
+        auto mediaBox = page.FindKey("MediaBox");
+        if (mediaBox != nullptr)
+            page.AddKeyIndirectSafe("CropBox", *mediaBox);
+    }
+
+    if (isInherited("Rotate"))
+        page.AddKey("Rotate", PdfVariant(static_cast<int64_t>(0)));
+
+    if (isInherited("Resources"))
+        page.AddKey("Resources", PdfDictionary());
 }
 
 void PdfPageCollection::deletePageFromNode(PdfObject& parent, const PdfObjectList& parents,
diff --git a/src/pdfmm/base/PdfPageCollection.h b/src/pdfmm/base/PdfPageCollection.h
index 21461b6..79c27a4 100644
--- a/src/pdfmm/base/PdfPageCollection.h
+++ b/src/pdfmm/base/PdfPageCollection.h
@@ -146,6 +146,10 @@ private:
     // Insert the pages in the tree, without updating the cache. Returns false if it was not possible
     bool insertPagesInTree(unsigned atIndex, const std::vector<PdfObject*>& pages);
 
+    // Set defaults for the attributes an inserted page doesn't
+    // define, so it doesn't take the ones of its new ancestors
+    void setDefaultAttributes(PdfDictionary& page);
+
     // Remove the page from the tree, without updating the cache
     void removePageFromTree(unsigned atIndex);
 
-- 
2.43.0


From 847bd9740f3b8d0b2b62b2c52d923061fe720640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 061/171] fix: Collect garbage without recursion

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 74 +++++++++++++-----------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 32d7c6a..ec92acf 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -376,46 +376,52 @@ void PdfIndirectObjectList::CollectGarbage()
 
 void PdfIndirectObjectList::visitObject(const PdfObject& obj, unordered_set<PdfReference>& referencedObjects)
 {
-    if (obj.IsIndirect())
+    // NOTE: Objects can be linked in chains of any length
+    // (eg. the items of an outline), so don't recurse
+    vector<const PdfObject*> stack{ &obj };
+    while (stack.size() != 0)
     {
-        // Try to check if the object has been already visited
-        auto inserted = referencedObjects.insert(obj.GetIndirectReference());
-        if (!inserted.second)
+        auto& curr = *stack.back();
+        stack.pop_back();
+        if (curr.IsIndirect())
         {
-            // The object has been visited, just return
-            return;
+            // Try to check if the object has been already visited
+            auto inserted = referencedObjects.insert(curr.GetIndirectReference());
+            if (!inserted.second)
+            {
+                // The object has been visited, go on with the others
+                continue;
+            }
         }
-    }
 
-    switch (obj.GetDataType())
-    {
-        case PdfDataType::Reference:
+        switch (curr.GetDataType())
         {
-            auto childObj = GetObject(obj.GetReference());
-            if (childObj == nullptr)
+            case PdfDataType::Reference:
+            {
+                auto childObj = GetObject(curr.GetReference());
+                if (childObj != nullptr)
+                    stack.push_back(childObj);
                 break;
-
-            visitObject(*childObj, referencedObjects);
-            break;
-        }
-        case PdfDataType::Array:
-        {
-            auto& arr = obj.GetArray();
-            for (auto& child : arr)
-                visitObject(child, referencedObjects);
-            break;
-        }
-        case PdfDataType::Dictionary:
-        {
-            auto& dict = obj.GetDictionary();
-            for (auto& pair : dict)
-                visitObject(pair.second, referencedObjects);
-            break;
-        }
-        default:
-        {
-            // Nothing to do
-            break;
+            }
+            case PdfDataType::Array:
+            {
+                auto& arr = curr.GetArray();
+                for (auto& child : arr)
+                    stack.push_back(&child);
+                break;
+            }
+            case PdfDataType::Dictionary:
+            {
+                auto& dict = curr.GetDictionary();
+                for (auto& pair : dict)
+                    stack.push_back(&pair.second);
+                break;
+            }
+            default:
+            {
+                // Nothing to do
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From b96d5179daef1fd6cc39833e3b9986b137d32785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 062/171] fix: Look up indirect objects in logarithmic time

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 28 +++++++++++++-----------
 src/pdfmm/base/PdfIndirectObjectList.h   | 13 ++++++++---
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index ec92acf..281e77a 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -65,7 +65,6 @@ private:
 PdfIndirectObjectList::PdfIndirectObjectList() :
     m_Document(nullptr),
     m_CanReuseObjectNumbers(true),
-    m_Objects(CompareObject),
     m_ObjectCount(0),
     m_StreamFactory(nullptr)
 {
@@ -74,7 +73,6 @@ PdfIndirectObjectList::PdfIndirectObjectList() :
 PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document) :
     m_Document(&document),
     m_CanReuseObjectNumbers(true),
-    m_Objects(CompareObject),
     m_ObjectCount(1),
     m_StreamFactory(nullptr)
 {
@@ -83,7 +81,6 @@ PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document) :
 PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document, const PdfIndirectObjectList& rhs)  :
     m_Document(&document),
     m_CanReuseObjectNumbers(rhs.m_CanReuseObjectNumbers),
-    m_Objects(CompareObject),
     m_ObjectCount(rhs.m_ObjectCount),
     m_FreeObjects(rhs.m_FreeObjects),
     m_unavailableObjects(rhs.m_unavailableObjects),
@@ -128,8 +125,8 @@ PdfObject& PdfIndirectObjectList::MustGetObject(const PdfReference& ref) const
 
 PdfObject* PdfIndirectObjectList::GetObject(const PdfReference& ref) const
 {
-    auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
+    auto it = m_Objects.find(ref);
+    if (it == m_Objects.end())
         return nullptr;
 
     return *it;
@@ -142,8 +139,8 @@ unique_ptr<PdfObject> PdfIndirectObjectList::RemoveObject(const PdfReference& re
 
 unique_ptr<PdfObject> PdfIndirectObjectList::RemoveObject(const PdfReference& ref, bool markAsFree)
 {
-    auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
+    auto it = m_Objects.find(ref);
+    if (it == m_Objects.end())
         return nullptr;
 
     return removeObject(it, markAsFree);
@@ -159,8 +156,8 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
     if (obj == nullptr)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
-    auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
+    auto it = m_Objects.find(ref);
+    if (it == m_Objects.end())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
@@ -353,7 +350,7 @@ void PdfIndirectObjectList::CollectGarbage()
     unordered_set<PdfReference> referencedOjects;
     visitObject(m_Document->GetTrailer().GetObject(), referencedOjects);
     vector<PdfObject*> objectsToDelete;
-    ObjectList newlist(CompareObject);
+    ObjectList newlist;
     for (PdfObject* obj : m_Objects)
     {
         auto& ref = obj->GetIndirectReference();
@@ -544,12 +541,17 @@ size_t PdfIndirectObjectList::size() const
     return m_Objects.size();
 }
 
-bool PdfIndirectObjectList::CompareObject(const PdfObject* p1, const PdfObject* p2)
+bool PdfIndirectObjectList::CompareObject::operator()(const PdfObject* lhs, const PdfObject* rhs) const
 {
-    return *p1 < *p2;
+    return *lhs < *rhs;
 }
 
-bool PdfIndirectObjectList::CompareReference(const PdfObject* obj, const PdfReference& ref)
+bool PdfIndirectObjectList::CompareObject::operator()(const PdfObject* obj, const PdfReference& ref) const
 {
     return obj->GetIndirectReference() < ref;
 }
+
+bool PdfIndirectObjectList::CompareObject::operator()(const PdfReference& ref, const PdfObject* obj) const
+{
+    return ref < obj->GetIndirectReference();
+}
diff --git a/src/pdfmm/base/PdfIndirectObjectList.h b/src/pdfmm/base/PdfIndirectObjectList.h
index 5ccba27..650ae6e 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.h
+++ b/src/pdfmm/base/PdfIndirectObjectList.h
@@ -38,11 +38,18 @@ class PDFMM_API PdfIndirectObjectList final
     friend class PdfImmediateWriter;
 
 private:
-    static bool CompareObject(const PdfObject* p1, const PdfObject* p2);
-    static bool CompareReference(const PdfObject* obj, const PdfReference& ref);
+    // Compare objects by their reference, allowing to also
+    // search objects by reference
+    struct PDFMM_API CompareObject final
+    {
+        using is_transparent = void;
+        bool operator()(const PdfObject* lhs, const PdfObject* rhs) const;
+        bool operator()(const PdfObject* obj, const PdfReference& ref) const;
+        bool operator()(const PdfReference& ref, const PdfObject* obj) const;
+    };
 
 private:
-    using ObjectList = std::set<PdfObject*, decltype(CompareObject)*>;
+    using ObjectList = std::set<PdfObject*, CompareObject>;
 
 public:
     // An incomplete set of container typedefs, just enough to handle
-- 
2.43.0


From 549f6e39a3ce6387091d2dba574e57b097d806b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 063/171] fix: Don't count a recursion that was refused

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e90393b..615fe16 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1222,6 +1222,9 @@ void utls::RecursionGuard::Enter()
     s_recursionDepth++;
     if (s_recursionDepth > s_MaxRecursionDepth)
     {
+        // The destructor is not called if the constructor throws
+        Exit();
+
         // avoid stack overflow on documents that have circular cross references, loops
         // or very deeply nested structures, can happen with
         // /Prev entries in trailer and XRef streams (possible via a chain of entries with a loop)
-- 
2.43.0


From d4297c573fad5cb75879f80938372eb16a70705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 064/171] fix: Link, load and insert outline items consistently

---
 src/pdfmm/base/PdfOutlines.cpp | 140 +++++++++++++++++++++++----------
 src/pdfmm/base/PdfOutlines.h   |  15 ++++
 2 files changed, 112 insertions(+), 43 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 6df8ed7..41de8e7 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -6,6 +6,8 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfOutlines.h"
 
+#include <unordered_set>
+
 #include "PdfDocument.h"
 #include "PdfArray.h"
 #include "PdfDictionary.h"
@@ -46,22 +48,27 @@ PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, Pd
     : PdfDictionaryElement(obj), m_ParentOutline(parentOutline), m_Prev(previous),
     m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
 {
-    utls::RecursionGuard guard;
-    PdfReference first, next;
-
-    if (this->GetObject().GetDictionary().HasKey("First"))
+    unordered_set<PdfReference> visited;
+    visited.insert(obj.GetIndirectReference());
+    try
     {
-        first = this->GetObject().GetDictionary().GetKey("First")->GetReference();
-        m_First = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(first), this, nullptr);
+        loadChildren(visited);
+        loadSiblings(visited);
     }
-
-    if (this->GetObject().GetDictionary().HasKey("Next"))
+    catch (...)
     {
-        next = this->GetObject().GetDictionary().GetKey("Next")->GetReference();
-        m_Next = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(next), parentOutline, this);
+        // The destructor is not called if the constructor throws
+        deleteItems();
+        throw;
     }
 }
 
+PdfOutlineItem::PdfOutlineItem(PdfOutlineItem* parentOutline, PdfOutlineItem* previous, PdfObject& obj)
+    : PdfDictionaryElement(obj), m_ParentOutline(parentOutline), m_Prev(previous),
+    m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
+{
+}
+
 PdfOutlineItem::PdfOutlineItem(PdfDocument& doc)
     : PdfDictionaryElement(doc, "Outlines"), m_ParentOutline(nullptr), m_Prev(nullptr),
     m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
@@ -70,8 +77,67 @@ PdfOutlineItem::PdfOutlineItem(PdfDocument& doc)
 
 PdfOutlineItem::~PdfOutlineItem()
 {
-    delete m_Next;
+    deleteItems();
+}
+
+void PdfOutlineItem::deleteItems()
+{
+    // There may be very many siblings, don't delete them recursively
+    auto next = m_Next;
+    m_Next = nullptr;
+    while (next != nullptr)
+    {
+        auto item = next;
+        next = item->m_Next;
+        item->m_Next = nullptr;
+        delete item;
+    }
+
     delete m_First;
+    m_First = nullptr;
+}
+
+void PdfOutlineItem::loadChildren(unordered_set<PdfReference>& visited)
+{
+    utls::RecursionGuard guard;
+    auto obj = findItem("First", visited);
+    if (obj == nullptr)
+        return;
+
+    m_First = new PdfOutlineItem(this, nullptr, *obj);
+    m_First->loadChildren(visited);
+    m_Last = m_First->loadSiblings(visited);
+}
+
+PdfOutlineItem* PdfOutlineItem::loadSiblings(unordered_set<PdfReference>& visited)
+{
+    auto item = this;
+    while (true)
+    {
+        auto obj = item->findItem("Next", visited);
+        if (obj == nullptr)
+            return item;
+
+        item->m_Next = new PdfOutlineItem(m_ParentOutline, item, *obj);
+        item = item->m_Next;
+        item->loadChildren(visited);
+    }
+}
+
+PdfObject* PdfOutlineItem::findItem(const string_view& key, unordered_set<PdfReference>& visited)
+{
+    // NOTE: A null value is equivalent to an absent entry
+    auto obj = GetObject().GetDictionary().FindKey(key);
+    if (obj == nullptr || obj->IsNull())
+        return nullptr;
+
+    if (!obj->IsDictionary() || !obj->GetIndirectReference().IsIndirect())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Invalid outline item");
+
+    if (!visited.insert(obj->GetIndirectReference()).second)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Loop in the outlines");
+
+    return obj;
 }
 
 PdfOutlineItem* PdfOutlineItem::CreateChild(const PdfString& title, const shared_ptr<PdfDestination>& dest)
@@ -88,39 +154,21 @@ void PdfOutlineItem::InsertChild(PdfOutlineItem* item)
 
 void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
 {
-    PdfOutlineItem* itemToCheckParent = item;
-    PdfOutlineItem* root = nullptr;
-    PdfOutlineItem* rootOfThis = nullptr;
-
-    if (itemToCheckParent == nullptr)
+    if (item == nullptr)
         return;
 
     if (checkParent)
     {
-        while (itemToCheckParent != nullptr)
-        {
-            while (itemToCheckParent->GetParentOutline())
-                itemToCheckParent = itemToCheckParent->GetParentOutline();
-
-            if (itemToCheckParent == item) // item can't have a parent
-            {
-                root = item; // needed later, "root" can mean "standalone" here
-                break;         // for performance in standalone or doc-merge case
-            }
-
-            if (root == nullptr)
-            {
-                rootOfThis = itemToCheckParent;
-                itemToCheckParent = nullptr;
-            }
-            else
-            {
-                root = itemToCheckParent;
-                itemToCheckParent = this;
-            }
-        }
-
-        if (root == rootOfThis) // later nullptr if check skipped for performance
+        // The item can't be in the same tree
+        PdfOutlineItem* root = item;
+        while (root->m_ParentOutline != nullptr)
+            root = root->m_ParentOutline;
+
+        PdfOutlineItem* rootOfThis = this;
+        while (rootOfThis->m_ParentOutline != nullptr)
+            rootOfThis = rootOfThis->m_ParentOutline;
+
+        if (root == rootOfThis)
             PDFMM_RAISE_ERROR(PdfErrorCode::OutlineItemAlreadyPresent);
     }
 
@@ -130,10 +178,16 @@ void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
         item->SetPrevious(m_Last);
     }
 
-    m_Last = item;
-
     if (m_First == nullptr)
-        m_First = m_Last;
+        m_First = item;
+
+    // The item may be followed by other ones
+    for (auto sibling = item; sibling != nullptr; sibling = sibling->m_Next)
+    {
+        sibling->m_ParentOutline = this;
+        sibling->GetObject().GetDictionary().AddKey("Parent", this->GetObject().GetIndirectReference());
+        m_Last = sibling;
+    }
 
     this->GetObject().GetDictionary().AddKey("First", m_First->GetObject().GetIndirectReference());
     this->GetObject().GetDictionary().AddKey("Last", m_Last->GetObject().GetIndirectReference());
diff --git a/src/pdfmm/base/PdfOutlines.h b/src/pdfmm/base/PdfOutlines.h
index 1db0e43..5ae16bd 100644
--- a/src/pdfmm/base/PdfOutlines.h
+++ b/src/pdfmm/base/PdfOutlines.h
@@ -6,6 +6,8 @@
 #ifndef PDF_OUTLINE_H
 #define PDF_OUTLINE_H
 
+#include <unordered_set>
+
 #include "PdfDeclarations.h"
 
 #include "PdfElement.h"
@@ -231,6 +233,19 @@ protected:
      */
     PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, PdfOutlineItem* previous);
 
+private:
+    // Create a PdfOutlineItem without loading its children and siblings
+    PdfOutlineItem(PdfOutlineItem* parentOutline, PdfOutlineItem* previous, PdfObject& obj);
+
+    void loadChildren(std::unordered_set<PdfReference>& visited);
+
+    // Returns the last sibling
+    PdfOutlineItem* loadSiblings(std::unordered_set<PdfReference>& visited);
+
+    PdfObject* findItem(const std::string_view& key, std::unordered_set<PdfReference>& visited);
+
+    void deleteItems();
+
 private:
     PdfOutlineItem* m_ParentOutline;
 
-- 
2.43.0


From 2479692e3e73f77a9f1eeb3bbdb944ba553f5b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:00 +0000
Subject: [PATCH 065/171] fix: Copy pages, objects and outlines of other
 documents completely

---
 src/pdfmm/base/PdfDocument.cpp | 242 +++++++++------------------------
 src/pdfmm/base/PdfDocument.h   |   9 +-
 2 files changed, 71 insertions(+), 180 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 2b9d3c1..db9cfad 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -111,24 +111,30 @@ void PdfDocument::Init()
 
 void PdfDocument::AppendDocumentPages(const PdfDocument& doc)
 {
-    append(doc, true);
+    insertPages(m_Pages->GetCount(), doc, 0, doc.GetPages().GetCount());
 }
 
-void PdfDocument::append(const PdfDocument& doc, bool appendAll)
+void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
+{
+    insertPages(atIndex, doc, pageIndex, 1);
+}
+
+void PdfDocument::AppendDocumentPages(const PdfDocument& doc, unsigned pageIndex, unsigned pageCount)
 {
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    insertPages(m_Pages->GetCount(), doc, pageIndex, pageCount);
+}
 
-    // Because GetNextObject uses m_ObjectCount instead 
-    // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
-    // make sure the free objects are already present before appending to
-    // prevent overlapping obj-numbers
+unsigned PdfDocument::appendObjects(const PdfDocument& doc)
+{
+    // The appended objects are numbered after all the existing ones
+    unsigned difference = m_Objects.m_ObjectCount - 1;
 
-    // create all free objects again, to have a clean free object list
-    for (auto& ref : doc.GetObjects().GetFreeObjects())
-        m_Objects.AddFreeObject(PdfReference(ref.ObjectNumber() + difference, ref.GenerationNumber()));
+    // NOTE: The document to append may be this one, so
+    // take all the objects before adding the copies
+    vector<const PdfObject*> objects(doc.GetObjects().begin(), doc.GetObjects().end());
 
     // append all objects first and fix their references
-    for (auto& obj : doc.GetObjects())
+    for (auto obj : objects)
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
@@ -142,196 +148,79 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         fixObjectReferences(*newObj, difference);
     }
 
-    if (appendAll)
-    {
-        const PdfName inheritableAttributes[] = {
-            PdfName("Resources"),
-            PdfName("MediaBox"),
-            PdfName("CropBox"),
-            PdfName("Rotate"),
-            PdfName::KeyNull
-        };
-
-        // append all pages now to our page tree
-        for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
-        {
-            auto& page = doc.GetPages().GetPageAt(i);
-            auto& obj = m_Objects.MustGetObject(PdfReference(page.GetObject().GetIndirectReference().ObjectNumber()
-                + difference, page.GetObject().GetIndirectReference().GenerationNumber()));
-            if (obj.IsDictionary() && obj.GetDictionary().HasKey("Parent"))
-                obj.GetDictionary().RemoveKey("Parent");
-
-            // Deal with inherited attributes
-            auto inherited = inheritableAttributes;
-            while (!inherited->IsNull())
-            {
-                auto attribute = page.GetDictionary().FindKeyParent(*inherited);
-                if (attribute != nullptr)
-                {
-                    PdfObject attributeCopy(*attribute);
-                    fixObjectReferences(attributeCopy, difference);
-                    obj.GetDictionary().AddKey(*inherited, attributeCopy);
-                }
-
-                inherited++;
-            }
-
-            m_Pages->InsertPageAt(m_Pages->GetCount(), obj);
-        }
-
-        // append all outlines
-        PdfOutlineItem* root = this->GetOutlines();
-        PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
-        if (appendRoot && appendRoot->First())
-        {
-            // only append outlines if appended document has outlines
-            while (root && root->Next())
-                root = root->Next();
-
-            PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
-                + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-            root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
-        }
-    }
-
-    // TODO: merge name trees
-    // ToDictionary -> then iteratate over all keys and add them to the new one
+    return difference;
 }
 
-void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
+void PdfDocument::insertPages(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex, unsigned pageCount)
 {
-    // copy of PdfDocument::Append, only restricts which page to add
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    /*
+      This function works a bit different than one might expect.
+      Rather than copying one page at a time - we copy the ENTIRE document
+      and then insert only the pages we are interested in.
 
+      We do this because
+      1) SIGNIFICANTLY simplifies the process
+      2) Guarantees that shared objects aren't copied multiple times
+      3) offers MUCH faster performance for the common cases
 
-    // Because GetNextObject uses m_ObjectCount instead 
-    // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
-    // make sure the free objects are already present before appending to
-    // prevent overlapping obj-numbers
+      The data from unused pages can be removed by collecting the garbage
+    */
 
-    // create all free objects again, to have a clean free object list
-    for (auto& freeObj : GetObjects().GetFreeObjects())
-    {
-        m_Objects.AddFreeObject(PdfReference(freeObj.ObjectNumber() + difference, freeObj.GenerationNumber()));
-    }
+    static const string_view inheritableAttributes[] = { "Resources", "MediaBox", "CropBox", "Rotate" };
 
-    // append all objects first and fix their references
-    for (auto& obj : GetObjects())
-    {
-        PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
-        auto newObj = new PdfObject(PdfDictionary());
-        newObj->setDirty();
-        newObj->SetIndirectReference(ref);
-        m_Objects.PushObject(newObj);
-        *newObj = *obj;
+    unsigned docPageCount = doc.GetPages().GetCount();
+    if (pageIndex > docPageCount || pageCount > docPageCount - pageIndex)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
 
-        mm::LogMessage(PdfLogSeverity::Information, "Fixing references in {} {} R by {}",
-            newObj->GetIndirectReference().ObjectNumber(), newObj->GetIndirectReference().GenerationNumber(), difference);
-        fixObjectReferences(*newObj, difference);
-    }
+    vector<const PdfPage*> pages;
+    for (unsigned i = 0; i < pageCount; i++)
+        pages.push_back(&doc.GetPages().GetPageAt(pageIndex + i));
 
-    const PdfName inheritableAttributes[] = {
-        PdfName("Resources"),
-        PdfName("MediaBox"),
-        PdfName("CropBox"),
-        PdfName("Rotate"),
-        PdfName::KeyNull
-    };
+    auto appendOutlines = const_cast<PdfDocument&>(doc).GetOutlines();
+    PdfReference firstOutline;
+    if (appendOutlines != nullptr && appendOutlines->First() != nullptr)
+        firstOutline = appendOutlines->First()->GetObject().GetIndirectReference();
 
-    // append all pages now to our page tree
-    for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
-    {
-        if (i != pageIndex)
-            continue;
+    unsigned difference = appendObjects(doc);
 
-        auto& page = doc.GetPages().GetPageAt(i);
-        auto& obj = m_Objects.MustGetObject(PdfReference(page.GetObject().GetIndirectReference().ObjectNumber()
-            + difference, page.GetObject().GetIndirectReference().GenerationNumber()));
-        if (obj.IsDictionary() && obj.GetDictionary().HasKey("Parent"))
-            obj.GetDictionary().RemoveKey("Parent");
+    vector<PdfObject*> pageObjs;
+    for (auto page : pages)
+    {
+        auto& obj = m_Objects.MustGetObject(PdfReference(page->GetObject().GetIndirectReference().ObjectNumber()
+            + difference, page->GetObject().GetIndirectReference().GenerationNumber()));
+        obj.GetDictionary().RemoveKey("Parent");
 
         // Deal with inherited attributes
-        const PdfName* inherited = inheritableAttributes;
-        while (!inherited->IsNull())
+        for (auto& inherited : inheritableAttributes)
         {
-            auto attribute = page.GetDictionary().FindKeyParent(*inherited);
-            if (attribute != nullptr)
-            {
-                PdfObject attributeCopy(*attribute);
-                fixObjectReferences(attributeCopy, difference);
-                obj.GetDictionary().AddKey(*inherited, attributeCopy);
-            }
-
-            inherited++;
+            auto attribute = page->GetDictionary().FindKeyParent(inherited);
+            if (attribute == nullptr || attribute == page->GetDictionary().FindKey(inherited))
+                continue;
+
+            // Shared attributes shall be still shared
+            PdfObject attributeCopy = attribute->IsIndirect()
+                ? PdfObject(attribute->GetIndirectReference()) : PdfObject(*attribute);
+            fixObjectReferences(attributeCopy, difference);
+            obj.GetDictionary().AddKey(PdfName(inherited), attributeCopy);
         }
 
-        m_Pages->InsertPageAt(atIndex, obj);
+        pageObjs.push_back(&obj);
     }
 
+    if (pageObjs.size() != 0)
+        m_Pages->InsertPagesAt(atIndex, pageObjs);
+
     // append all outlines
-    PdfOutlineItem* root = this->GetOutlines();
-    PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
-    if (appendRoot != nullptr && appendRoot->First())
+    if (firstOutline.IsIndirect())
     {
-        // only append outlines if appended document has outlines
-        while (root != nullptr && root->Next())
-            root = root->Next();
-
-        PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
-            + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-        root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
+        PdfReference ref(firstOutline.ObjectNumber() + difference, firstOutline.GenerationNumber());
+        GetOrCreateOutlines().InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
     }
 
     // TODO: merge name trees
     // ToDictionary -> then iteratate over all keys and add them to the new one
 }
 
-void PdfDocument::AppendDocumentPages(const PdfDocument& doc, unsigned pageIndex, unsigned pageCount)
-{
-    /*
-      This function works a bit different than one might expect.
-      Rather than copying one page at a time - we copy the ENTIRE document
-      and then delete the pages we aren't interested in.
-
-      We do this because
-      1) SIGNIFICANTLY simplifies the process
-      2) Guarantees that shared objects aren't copied multiple times
-      3) offers MUCH faster performance for the common cases
-
-      HOWEVER: because pdfmm doesn't currently do any sort of "object garbage collection" during
-      a Write() - we will end up with larger documents, since the data from unused pages
-      will also be in there.
-    */
-
-    // calculate preliminary "left" and "right" page ranges to delete
-    // then offset them based on where the pages were inserted
-    // NOTE: some of this will change if/when we support insertion at locations
-    //       OTHER than the end of the document!
-    unsigned leftStartPage = 0;
-    unsigned leftCount = pageIndex;
-    unsigned rightStartPage = pageIndex + pageCount;
-    unsigned rightCount = doc.GetPages().GetCount() - rightStartPage;
-    unsigned pageOffset = this->GetPages().GetCount();
-
-    leftStartPage += pageOffset;
-    rightStartPage += pageOffset;
-
-    // append in the whole document
-    this->AppendDocumentPages(doc);
-
-    // delete
-    if (rightCount > 0)
-        this->deletePages(rightStartPage, rightCount);
-    if (leftCount > 0)
-        this->deletePages(leftStartPage, leftCount);
-}
-
-void PdfDocument::deletePages(unsigned atIndex, unsigned pageCount)
-{
-    for (unsigned i = 0; i < pageCount; i++)
-        this->GetPages().RemovePageAt(atIndex);
-}
-
 PdfInfo& PdfDocument::GetOrCreateInfo()
 {
     if (m_Info == nullptr)
@@ -350,8 +239,7 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
     auto& sourceDoc = page.GetDocument();
     if (this != &sourceDoc)
     {
-        difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
-        append(sourceDoc, false);
+        difference = appendObjects(sourceDoc);
     }
 
     // TODO: remove unused objects: page, ...
diff --git a/src/pdfmm/base/PdfDocument.h b/src/pdfmm/base/PdfDocument.h
index 32193d6..d57257f 100644
--- a/src/pdfmm/base/PdfDocument.h
+++ b/src/pdfmm/base/PdfDocument.h
@@ -306,7 +306,12 @@ private:
     PdfRect FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& page, bool useTrimBox);
 
 private:
-    void append(const PdfDocument& doc, bool appendAll);
+    // Append copies of all the objects of the document.
+    // Returns the value that was added to their object numbers
+    unsigned appendObjects(const PdfDocument& doc);
+
+    void insertPages(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex, unsigned pageCount);
+
     /** Recursively changes every PdfReference in the PdfObject and in any child
      *  that is either an PdfArray or a direct object.
      *  The reference is changed so that difference is added to the object number
@@ -316,8 +321,6 @@ private:
      */
     void fixObjectReferences(PdfObject& obj, int difference);
 
-    void deletePages(unsigned atIndex, unsigned pageCount);
-
 private:
     PdfDocument& operator=(const PdfDocument&) = delete;
 
-- 
2.43.0


From c44dace683fd8315ea69776ff805bb382ceefa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:00 +0000
Subject: [PATCH 066/171] fix: Make self-contained form XObjects of pages

---
 src/pdfmm/base/PdfDocument.cpp    | 70 ++++++++++++-------------------
 src/pdfmm/base/PdfXObjectForm.cpp |  3 ++
 2 files changed, 30 insertions(+), 43 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index db9cfad..6298dd3 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -256,64 +256,48 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
         box.Intersect(page.GetTrimBox());
 
     // link resources from external doc to x-object
-    if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Resources"))
-        xobj.GetObject().GetDictionary().AddKey("Resources", *pageObj.GetDictionary().GetKey("Resources"));
+    // NOTE: The resources may be inherited
+    auto resources = pageObj.GetDictionary().FindKeyParent("Resources");
+    if (resources != nullptr)
+        xobj.GetObject().GetDictionary().AddKeyIndirectSafe("Resources", *resources);
 
     // copy top-level content from external doc to x-object
-    if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Contents"))
+    auto contents = pageObj.GetDictionary().FindKey("Contents");
+    xobj.GetObject().ForceCreateStream();
+    if (contents != nullptr && !contents->IsNull())
     {
         // get direct pointer to contents
-        auto& contents = pageObj.GetDictionary().MustFindKey("Contents");
-        if (contents.IsArray())
+        if (contents->IsArray())
         {
             // copy array as one stream to xobject
-            PdfArray arr = contents.GetArray();
+            const PdfArray& arr = contents->GetArray();
 
             auto& xobjStream = xobj.GetObject().GetOrCreateStream();
             auto output = xobjStream.GetOutputStream({ PdfFilterType::FlateDecode });
 
-            for (auto& child : arr)
+            for (unsigned i = 0; i < arr.GetSize(); i++)
             {
-                if (child.IsReference())
-                {
-                    // TODO: not very efficient !!
-                    auto obj = GetObjects().GetObject(child.GetReference());
-
-                    while (obj != nullptr)
-                    {
-                        if (obj->IsReference())    // Recursively look for the stream
-                        {
-                            obj = GetObjects().GetObject(obj->GetReference());
-                        }
-                        else if (obj->HasStream())
-                        {
-                            PdfObjectStream& contStream = obj->GetOrCreateStream();
-
-                            charbuff contStreamBuffer;
-                            contStream.CopyTo(contStreamBuffer);
-                            output.Write(contStreamBuffer);
-                            break;
-                        }
-                        else
-                        {
-                            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidStream);
-                            break;
-                        }
-                    }
-                }
-                else
-                {
-                    string str;
-                    child.ToString(str);
-                    output.Write(str);
-                    output.Write(" ");
-                }
+                auto child = arr.FindAt(i);
+                if (child == nullptr || child->IsNull())
+                    continue;
+
+                auto contStream = child->GetStream();
+                if (contStream == nullptr)
+                    PDFMM_RAISE_ERROR(PdfErrorCode::InvalidStream);
+
+                charbuff contStreamBuffer;
+                contStream->CopyTo(contStreamBuffer);
+                output.Write(contStreamBuffer);
+
+                // The streams are divided at lexical tokens:
+                // they shall be separated when joining them
+                output.Write("\n");
             }
         }
-        else if (contents.HasStream())
+        else if (contents->HasStream())
         {
             // copy stream to xobject
-            auto& contentsStream = contents.GetOrCreateStream();
+            auto& contentsStream = contents->GetOrCreateStream();
             auto contentsInput = contentsStream.GetInputStream();
 
             auto& xobjStream = xobj.GetObject().GetOrCreateStream();
diff --git a/src/pdfmm/base/PdfXObjectForm.cpp b/src/pdfmm/base/PdfXObjectForm.cpp
index b198059..3f43c84 100644
--- a/src/pdfmm/base/PdfXObjectForm.cpp
+++ b/src/pdfmm/base/PdfXObjectForm.cpp
@@ -35,6 +35,9 @@ void PdfXObjectForm::FillFromPage(const PdfPage& page, bool useTrimBox)
     // After filling set correct BBox, independent of rotation
     m_Rect = GetDocument().FillXObjectFromPage(*this, page, useTrimBox);
     initAfterPageInsertion(page);
+
+    auto resources = GetDictionary().FindKey("Resources");
+    m_Resources.reset(resources == nullptr ? nullptr : new PdfResources(*resources));
 }
 
 void PdfXObjectForm::EnsureResourcesCreated()
-- 
2.43.0


From 2632547788997e00b8fb84d986cf08de96bd0277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 067/171] Verification hook: make the size of name tree nodes
 adjustable under PDFMM_VERIF

---
 src/pdfmm/base/PdfNameTree.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index ae19b9e..8e66d34 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -15,6 +15,13 @@ using namespace mm;
 
 #define BALANCE_TREE_MAX 65
 
+#ifdef PDFMM_VERIF
+// Allows verification harnesses to explore the rebalancing in small trees
+namespace mm { unsigned VerifBalanceTreeMax = BALANCE_TREE_MAX; }
+#undef BALANCE_TREE_MAX
+#define BALANCE_TREE_MAX VerifBalanceTreeMax
+#endif
+
 /*
 #define BALANCE_TREE_MAX 9
 */
-- 
2.43.0


From 50c7728fb40d70db2d7bc4fcad11b82c58156410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:41 +0000
Subject: [PATCH 068/171] fix: Order name tree keys by their bytes, and cope
 with empty nodes

---
 src/pdfmm/base/PdfNameTree.cpp | 131 +++++++++++++++++++++++++--------
 1 file changed, 102 insertions(+), 29 deletions(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index 8e66d34..1acbb68 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -6,11 +6,16 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfNameTree.h"
 
+#include <pdfmm/private/PdfEncodingPrivate.h>
+
 #include "PdfDocument.h"
 #include "PdfArray.h"
 #include "PdfDictionary.h"
 #include "PdfOutputDevice.h"
 
+#include <utfcpp/utf8.h>
+
+using namespace std;
 using namespace mm;
 
 #define BALANCE_TREE_MAX 65
@@ -26,6 +31,11 @@ namespace mm { unsigned VerifBalanceTreeMax = BALANCE_TREE_MAX; }
 #define BALANCE_TREE_MAX 9
 */
 
+// Keys are compared by the bytes they are written with, since
+// that is what determines the lexical order in the file
+static string getKeyBytes(const PdfString& key);
+static bool tryGetKeyBytes(const PdfObject* obj, string& bytes);
+
 class PdfNameTreeNode
 {
 public:
@@ -53,6 +63,14 @@ private:
 
 bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
 {
+    utls::RecursionGuard guard;
+    if (m_HasKids && this->GetObject()->GetDictionary().MustFindKey("Kids").GetArray().size() == 0)
+    {
+        // A node without kids can as well have the names
+        this->GetObject()->GetDictionary().RemoveKey("Kids");
+        m_HasKids = false;
+    }
+
     if (m_HasKids)
     {
         const PdfArray& kids = this->GetObject()->GetDictionary().MustFindKey("Kids").GetArray();
@@ -109,10 +127,18 @@ bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
         if (this->GetObject()->GetDictionary().HasKey("Names"))
         {
             auto& array = this->GetObject()->GetDictionary().MustFindKey("Names").GetArray();
+            if (array.size() % 2 != 0)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "A name tree node has a key without value");
+
+            auto keyBytes = getKeyBytes(key);
+            string currBytes;
             PdfArray::iterator it = array.begin();
             while (it != array.end())
             {
-                if (it->GetString() == key)
+                if (!tryGetKeyBytes(array.FindAt((unsigned)(it - array.begin())), currBytes))
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "A name tree node has a key that is no string");
+
+                if (currBytes == keyBytes)
                 {
                     // no need to write the key as it is anyways the same
                     it++;
@@ -120,7 +146,7 @@ bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
                     *it = value;
                     break;
                 }
-                else if (it->GetString().GetString() > key.GetString())
+                else if (currBytes > keyBytes)
                 {
                     it = array.insert(it, value); // array.insert invalidates the iterator
                     it = array.insert(it, key);
@@ -348,6 +374,7 @@ PdfObject* PdfNameTree::GetValue(const PdfName& tree, const PdfString& key) cons
 
 PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
 {
+    utls::RecursionGuard guard;
     if (PdfNameTree::CheckLimits(obj, key) != PdfNameLimits::Inside)
         return nullptr;
 
@@ -377,25 +404,23 @@ PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
     }
     else
     {
-        auto& names = obj.GetDictionary().MustFindKey("Names").GetArray();
-        PdfArray::iterator it = names.begin();
+        auto namesObj = obj.GetDictionary().FindKey("Names");
+        PdfArray* names;
+        if (namesObj == nullptr || !namesObj->TryGetArray(names))
+        {
+            // Nothing was added to the tree yet
+            return nullptr;
+        }
 
         // a names array is a set of PdfString/PdfObject pairs
         // so we loop in sets of two - getting each pair
-        while (it != names.end())
+        auto keyBytes = getKeyBytes(key);
+        string currBytes;
+        for (unsigned i = 0; i + 1 < names->size(); i += 2)
         {
-            if (it->GetString() == key)
-            {
-                it++;
-                if (it->IsReference())
-                    return this->GetObject().GetDocument()->GetObjects().GetObject((*it).GetReference());
-
-                return &(*it);
-            }
-
-            it += 2;
+            if (tryGetKeyBytes(names->FindAt(i), currBytes) && currBytes == keyBytes)
+                return names->FindAt(i + 1);
         }
-
     }
 
     return nullptr;
@@ -421,14 +446,18 @@ bool PdfNameTree::HasValue(const PdfName& tree, const PdfString& key) const
 
 PdfNameLimits PdfNameTree::CheckLimits(const PdfObject& obj, const PdfString& key)
 {
-    if (obj.GetDictionary().HasKey("Limits"))
+    auto limitsObj = obj.GetDictionary().FindKey("Limits");
+    const PdfArray* limits;
+    string first;
+    string last;
+    if (limitsObj != nullptr && limitsObj->TryGetArray(limits) && limits->size() >= 2
+        && tryGetKeyBytes(limits->FindAt(0), first) && tryGetKeyBytes(limits->FindAt(1), last))
     {
-        auto& limits = obj.GetDictionary().MustFindKey("Limits").GetArray();
-
-        if (limits[0].GetString().GetString() > key.GetString())
+        auto keyBytes = getKeyBytes(key);
+        if (first > keyBytes)
             return PdfNameLimits::Before;
 
-        if (limits[1].GetString().GetString() < key.GetString())
+        if (last < keyBytes)
             return PdfNameLimits::After;
     }
     else
@@ -473,16 +502,12 @@ void PdfNameTree::AddToDictionary(PdfObject& obj, PdfDictionary& dict)
     else if (obj.GetDictionary().HasKey("Names"))
     {
         auto& names = obj.GetDictionary().MustFindKey("Names").GetArray();
-        auto it = names.begin();
 
         // a names array is a set of PdfString/PdfObject pairs
         // so we loop in sets of two - getting each pair
-        while (it != names.end())
+        for (unsigned i = 0; i < names.size(); i += 2)
         {
-            // convert all strings into names 
-            PdfName name(it->GetString().GetString());
-            it++;
-            if (it == names.end())
+            if (i + 1 == names.size())
             {
                 mm::LogMessage(PdfLogSeverity::Warning,
                     "No reference in /Names array last element in "
@@ -491,8 +516,14 @@ void PdfNameTree::AddToDictionary(PdfObject& obj, PdfDictionary& dict)
                     obj.GetIndirectReference().GenerationNumber());
                 break;
             }
-            dict.AddKey(name, *it);
-            it++;
+
+            // convert all strings into names
+            auto keyObj = names.FindAt(i);
+            PdfString key;
+            if (keyObj == nullptr || !keyObj->TryGetString(key))
+                continue;
+
+            dict.AddKey(PdfName(key.GetString()), names[i + 1]);
         }
     }
 }
@@ -506,3 +537,45 @@ PdfObject* PdfNameTree::GetDestsNode(bool create) const
 {
     return this->GetRootNode("Dests", create);
 }
+
+string getKeyBytes(const PdfString& key)
+{
+    switch (key.GetState())
+    {
+        case PdfStringState::RawBuffer:
+            return key.GetRawData();
+        case PdfStringState::Ascii:
+            return key.GetString();
+        case PdfStringState::PdfDocEncoding:
+        {
+            string ret;
+            (void)mm::TryConvertUTF8ToPdfDocEncoding(key.GetString(), ret);
+            return ret;
+        }
+        case PdfStringState::Unicode:
+        {
+            auto& utf8 = key.GetString();
+            u16string utf16;
+            utf8::utf8to16(utf8.begin(), utf8.end(), std::back_inserter(utf16));
+            string ret = "\xFE\xFF";
+            for (auto ch : utf16)
+            {
+                ret.push_back((char)(ch >> 8));
+                ret.push_back((char)(ch & 0xFF));
+            }
+            return ret;
+        }
+        default:
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
+    }
+}
+
+bool tryGetKeyBytes(const PdfObject* obj, string& bytes)
+{
+    PdfString str;
+    if (obj == nullptr || !obj->TryGetString(str))
+        return false;
+
+    bytes = getKeyBytes(str);
+    return true;
+}
-- 
2.43.0


From ebc95fa61300fff75f88975a20913e077b3adbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 069/171] fix: Read dates by their grammar

---
 src/pdfmm/base/PdfDate.cpp | 152 +++++++++++++++++++++----------------
 1 file changed, 88 insertions(+), 64 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 9683b4c..4e501b0 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -23,18 +23,18 @@ using namespace mm;
 // a W3C date has a maximum of 26 bytes incuding the terminating \0
 #define W3C_DATE_BUFFER_SIZE 26
 
-#define PEEK_DATE_CHAR(str, zoneShift)\
-if (*str == '\0')\
+#define PEEK_DATE_CHAR(str, end, zoneShift)\
+if (str == end)\
 {\
     goto End;\
 }\
-else if (tryReadShiftChar(str, zoneShift))\
+else if (tryReadShiftChar(str, end, zoneShift))\
 {\
     goto ParseShift;\
 }
 
-#define PEEK_DATE_CHAR_W3C(str, separator)\
-if (*str == '\0')\
+#define PEEK_DATE_CHAR_W3C(str, end, separator)\
+if (str == end)\
 {\
     goto End;\
 }\
@@ -47,12 +47,12 @@ else\
     str++;\
 }
 
-static bool parseFixLenNumber(const char*& in, unsigned maxLength, int min, int max, int& ret);
+static bool parseFixLenNumber(const char*& in, const char* end, unsigned maxLength, int min, int max, int& ret);
 static int getLocalOffesetFromUTCMinutes();
-static bool tryReadShiftChar(const char*& in, int& zoneShift);
+static bool tryReadShiftChar(const char*& in, const char* end, int& zoneShift);
 static bool tryParse(const string_view & dateStr, chrono::seconds & secondsFromEpoch, nullable<chrono::minutes>&minutesFromUtc);
 static bool tryParseW3C(const string_view & dateStr, chrono::seconds & secondsFromEpoch, nullable<chrono::minutes>&minutesFromUtc);
-static void inferTimeComponents(int y, int m, int d, int h, int M, int s,
+static bool tryInferTimeComponents(int y, int m, int d, int h, int M, int s,
     bool hasZoneShift, int zoneShift, int zoneHour, int zoneMin,
     chrono::seconds & secondsFromEpoch, nullable<chrono::minutes>&minutesFromUtc);
 static chrono::seconds getSecondsFromEpoch();
@@ -212,64 +212,67 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
     int zoneMin = 0;
 
     const char* cursor = dateStr.data();
-    if (cursor == nullptr)
+    const char* end = cursor + dateStr.size();
+    if (cursor == end)
         return false;
 
     if (*cursor == 'D')
     {
         cursor++;
-        if (*cursor++ != ':')
+        if (cursor == end || *cursor++ != ':')
             return false;
     }
 
-    PEEK_DATE_CHAR(cursor, zoneShift);
-
-    if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
+    if (!parseFixLenNumber(cursor, end, 4, 0, 9999, y))
         return false;
 
-    PEEK_DATE_CHAR(cursor, zoneShift);
+    PEEK_DATE_CHAR(cursor, end, zoneShift);
 
-    if (!parseFixLenNumber(cursor, 2, 1, 12, m))
+    if (!parseFixLenNumber(cursor, end, 2, 1, 12, m))
         return false;
 
-    PEEK_DATE_CHAR(cursor, zoneShift);
+    PEEK_DATE_CHAR(cursor, end, zoneShift);
 
-    if (!parseFixLenNumber(cursor, 2, 1, 31, d))
+    if (!parseFixLenNumber(cursor, end, 2, 1, 31, d))
         return false;
 
-    PEEK_DATE_CHAR(cursor, zoneShift);
+    PEEK_DATE_CHAR(cursor, end, zoneShift);
 
-    if (!parseFixLenNumber(cursor, 2, 0, 23, h))
+    if (!parseFixLenNumber(cursor, end, 2, 0, 23, h))
         return false;
 
-    PEEK_DATE_CHAR(cursor, zoneShift);
+    PEEK_DATE_CHAR(cursor, end, zoneShift);
 
-    if (!parseFixLenNumber(cursor, 2, 0, 59, M))
+    if (!parseFixLenNumber(cursor, end, 2, 0, 59, M))
         return false;
 
-    PEEK_DATE_CHAR(cursor, zoneShift);
+    PEEK_DATE_CHAR(cursor, end, zoneShift);
 
-    if (!parseFixLenNumber(cursor, 2, 0, 59, s))
+    if (!parseFixLenNumber(cursor, end, 2, 0, 59, s))
         return false;
 
-    PEEK_DATE_CHAR(cursor, zoneShift);
+    if (cursor == end)
+        goto End;
+
+    if (!tryReadShiftChar(cursor, end, zoneShift))
+        return false;
 
 ParseShift:
     hasZoneShift = true;
-    if (*cursor != '\0')
+    if (cursor != end)
     {
-        if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
-            goto End;
+        if (!parseFixLenNumber(cursor, end, 2, 0, 23, zoneHour))
+            return false;
 
-        if (*cursor == '\'')
+        if (cursor != end && *cursor == '\'')
         {
             cursor++;
-            if (*cursor != '\0')
+            if (cursor != end)
             {
-                if (!parseFixLenNumber(cursor, 2, 0, 59, zoneMin))
+                if (!parseFixLenNumber(cursor, end, 2, 0, 59, zoneMin))
                     return false;
 
-                if (*cursor == '\'')
+                if (cursor != end && *cursor == '\'')
                     cursor++;
             }
         }
@@ -277,16 +280,14 @@ ParseShift:
         if (zoneShift == 0 && (zoneHour != 0 || zoneMin != 0))
             return false;
 
-        if (*cursor != '\0')
+        if (cursor != end)
             return false;
     }
 
 End:
-    inferTimeComponents(y, m, d, h, M, s,
+    return tryInferTimeComponents(y, m, d, h, M, s,
         hasZoneShift, zoneShift, zoneHour, zoneMin,
         secondsFromEpoch, minutesFromUtc);
-
-    return true;
 }
 
 bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
@@ -304,56 +305,71 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     int zoneMin = 0;
 
     const char* cursor = dateStr.data();
-    if (cursor == nullptr || *cursor == '\0')
+    const char* end = cursor + dateStr.size();
+    if (cursor == end)
         return false;
 
-    if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
+    if (!parseFixLenNumber(cursor, end, 4, 0, 9999, y))
         return false;
 
-    PEEK_DATE_CHAR_W3C(cursor, '-');
+    PEEK_DATE_CHAR_W3C(cursor, end, '-');
 
-    if (!parseFixLenNumber(cursor, 2, 1, 12, m))
+    if (!parseFixLenNumber(cursor, end, 2, 1, 12, m))
         return false;
 
-    PEEK_DATE_CHAR_W3C(cursor, '-');
+    PEEK_DATE_CHAR_W3C(cursor, end, '-');
 
-    if (!parseFixLenNumber(cursor, 2, 1, 31, d))
+    if (!parseFixLenNumber(cursor, end, 2, 1, 31, d))
         return false;
 
-    PEEK_DATE_CHAR_W3C(cursor, 'T');
+    PEEK_DATE_CHAR_W3C(cursor, end, 'T');
 
-    if (!parseFixLenNumber(cursor, 2, 0, 23, h))
+    if (!parseFixLenNumber(cursor, end, 2, 0, 23, h))
         return false;
 
-    PEEK_DATE_CHAR_W3C(cursor, ':');
+    PEEK_DATE_CHAR_W3C(cursor, end, ':');
 
-    if (!parseFixLenNumber(cursor, 2, 0, 59, M))
+    if (!parseFixLenNumber(cursor, end, 2, 0, 59, M))
         return false;
 
-    if (tryReadShiftChar(cursor, zoneShift))
+    if (tryReadShiftChar(cursor, end, zoneShift))
         goto ParseShift;
 
-    PEEK_DATE_CHAR_W3C(cursor, ':');
+    PEEK_DATE_CHAR_W3C(cursor, end, ':');
 
-    if (!parseFixLenNumber(cursor, 2, 0, 59, s))
+    if (!parseFixLenNumber(cursor, end, 2, 0, 59, s))
         return false;
 
-    if (!tryReadShiftChar(cursor, zoneShift))
+    if (cursor != end && *cursor == '.')
+    {
+        // Read the fraction of a second, which is not representable
+        cursor++;
+        if (cursor == end || !isdigit((unsigned char)*cursor))
+            return false;
+
+        while (cursor != end && isdigit((unsigned char)*cursor))
+            cursor++;
+    }
+
+    if (cursor == end)
         goto End;
 
+    if (!tryReadShiftChar(cursor, end, zoneShift))
+        return false;
+
 ParseShift:
     hasZoneShift = true;
-    if (*cursor != '\0')
+    if (cursor != end)
     {
-        if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
-            goto End;
+        if (!parseFixLenNumber(cursor, end, 2, 0, 23, zoneHour))
+            return false;
 
-        if (*cursor == ':')
+        if (cursor != end && *cursor == ':')
         {
             cursor++;
-            if (*cursor != '\0')
+            if (cursor != end)
             {
-                if (!parseFixLenNumber(cursor, 2, 0, 59, zoneMin))
+                if (!parseFixLenNumber(cursor, end, 2, 0, 59, zoneMin))
                     return false;
             }
         }
@@ -361,23 +377,26 @@ ParseShift:
         if (zoneShift == 0 && (zoneHour != 0 || zoneMin != 0))
             return false;
 
-        if (*cursor != '\0')
+        if (cursor != end)
             return false;
     }
 
 End:
-    inferTimeComponents(y, m, d, h, M, s,
+    return tryInferTimeComponents(y, m, d, h, M, s,
         hasZoneShift, zoneShift, zoneHour, zoneMin,
         secondsFromEpoch, minutesFromUtc);
-
-    return true;
 }
 
-void inferTimeComponents(int y, int m, int d, int h, int M, int s,
+bool tryInferTimeComponents(int y, int m, int d, int h, int M, int s,
     bool hasZoneShift, int zoneShift, int zoneHour, int zoneMin,
     chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
-    secondsFromEpoch = (chrono::local_days(chrono::year(y) / m / d) + chrono::hours(h) + chrono::minutes(M) + chrono::seconds(s)).time_since_epoch();
+    // Months and days default to 1
+    auto ymd = chrono::year(y) / std::max(m, 1) / std::max(d, 1);
+    if (!ymd.ok())
+        return false;
+
+    secondsFromEpoch = (chrono::local_days(ymd) + chrono::hours(h) + chrono::minutes(M) + chrono::seconds(s)).time_since_epoch();
     if (hasZoneShift)
     {
         minutesFromUtc = zoneShift * (chrono::hours(zoneHour) + chrono::minutes(zoneMin));
@@ -392,6 +411,8 @@ void inferTimeComponents(int y, int m, int d, int h, int M, int s,
         // can be assumed to the same
         minutesFromUtc = { };
     }
+
+    return true;
 }
 
 chrono::seconds getSecondsFromEpoch()
@@ -415,8 +436,11 @@ int getLocalOffesetFromUTCMinutes()
     return (int)(timegm(locg) - mktime(&locl)) / 60;
 }
 
-bool tryReadShiftChar(const char*& in, int& zoneShift)
+bool tryReadShiftChar(const char*& in, const char* end, int& zoneShift)
 {
+    if (in == end)
+        return false;
+
     switch (*in)
     {
         case '+':
@@ -436,12 +460,12 @@ bool tryReadShiftChar(const char*& in, int& zoneShift)
     return true;
 }
 
-bool parseFixLenNumber(const char*& in, unsigned maxLength, int min, int max, int& ret)
+bool parseFixLenNumber(const char*& in, const char* end, unsigned maxLength, int min, int max, int& ret)
 {
     ret = 0;
     for (unsigned i = 0; i < maxLength; i++)
     {
-        if (in == nullptr || !isdigit(*in))
+        if (in == end || !isdigit((unsigned char)*in))
             return i != 0;
 
         ret = ret * 10 + (*in - '0');
-- 
2.43.0


From b14b5f06a8dad34994a3109fd39c468533140ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 070/171] fix: Keep one position for reading and writing in
 stream devices

---
 src/pdfmm/base/PdfInputStream.cpp            |   2 +
 src/pdfmm/base/PdfStreamDevice.cpp           | 130 ++++++++++++-------
 src/pdfmm/base/PdfStreamDevice.h             |   5 +
 src/pdfmm/private/PdfDeclarationsPrivate.cpp |   1 +
 4 files changed, 89 insertions(+), 49 deletions(-)

diff --git a/src/pdfmm/base/PdfInputStream.cpp b/src/pdfmm/base/PdfInputStream.cpp
index 25a1009..2d765b5 100644
--- a/src/pdfmm/base/PdfInputStream.cpp
+++ b/src/pdfmm/base/PdfInputStream.cpp
@@ -73,6 +73,7 @@ size_t InputStream::Read(char* buffer, size_t size, bool& eof)
 
 void InputStream::CopyTo(OutputStream& stream)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
@@ -88,6 +89,7 @@ void InputStream::CopyTo(OutputStream& stream)
 
 void InputStream::CopyTo(OutputStream& stream, size_t size)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 6f3fc06..2e3174c 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -170,6 +170,7 @@ StandardStreamDevice::StandardStreamDevice(DeviceAccess access, ios& stream, boo
 
 StandardStreamDevice::StandardStreamDevice(DeviceAccess access, ios* stream, istream* istream, ostream* ostream, bool streamOwned) :
     StreamDevice(access),
+    m_reading(access == DeviceAccess::Read),
     m_Stream(stream),
     m_istream(istream),
     m_ostream(ostream),
@@ -184,27 +185,56 @@ StandardStreamDevice::~StandardStreamDevice()
         delete m_Stream;
 }
 
-size_t StandardStreamDevice::GetLength() const
+bool StandardStreamDevice::isReading() const
 {
-    size_t ret;
-    switch (GetAccess())
+    if (m_reading)
     {
-        case DeviceAccess::Read:
-        {
-            PDFMM_INVARIANT(m_istream != nullptr);
-            ret = getLength(*m_istream);
-            break;
-        }
-        case DeviceAccess::Write:
-        case DeviceAccess::ReadWrite:
-        {
-            PDFMM_INVARIANT(m_ostream != nullptr);
-            ret = getLength(*m_ostream);
-            break;
-        }
-        default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
+        PDFMM_INVARIANT(m_istream != nullptr);
+        return true;
     }
+    else
+    {
+        PDFMM_INVARIANT(m_ostream != nullptr);
+        return false;
+    }
+}
+
+// The input and output positions of a stream may be distinct:
+// continue to read where the last write ended
+void StandardStreamDevice::prepareRead() const
+{
+    if (m_reading)
+        return;
+
+    auto pos = m_ostream->tellp();
+    if (pos != streampos(-1))
+        m_istream->seekg(pos);
+
+    m_reading = true;
+}
+
+// Continue to write where the last read ended
+void StandardStreamDevice::prepareWrite()
+{
+    if (!m_reading)
+        return;
+
+    // A stream that reached the end of the input is still writable
+    m_Stream->clear(m_Stream->rdstate() & ~ios_base::eofbit);
+    auto pos = m_istream->tellg();
+    if (pos != streampos(-1))
+        m_ostream->seekp(pos);
+
+    m_reading = false;
+}
+
+size_t StandardStreamDevice::GetLength() const
+{
+    size_t ret;
+    if (isReading())
+        ret = getLength(*m_istream);
+    else
+        ret = getLength(*m_ostream);
 
     if (m_Stream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to retrieve length for this stream");
@@ -215,24 +245,10 @@ size_t StandardStreamDevice::GetLength() const
 size_t StandardStreamDevice::GetPosition() const
 {
     size_t ret;
-    switch (GetAccess())
-    {
-        case DeviceAccess::Read:
-        {
-            PDFMM_INVARIANT(m_istream != nullptr);
-            ret = getPosition(*m_istream);
-            break;
-        }
-        case DeviceAccess::Write:
-        case DeviceAccess::ReadWrite:
-        {
-            PDFMM_INVARIANT(m_ostream != nullptr);
-            ret = getPosition(*m_ostream);
-            break;
-        }
-        default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
-    }
+    if (isReading())
+        ret = getPosition(*m_istream);
+    else
+        ret = getPosition(*m_ostream);
 
     if (m_Stream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to get current position in the stream");
@@ -247,12 +263,17 @@ bool StandardStreamDevice::CanSeek() const
 
 bool StandardStreamDevice::Eof() const
 {
-    return m_Stream->eof();
+    if ((GetAccess() & DeviceAccess::Read) == DeviceAccess{ })
+        return m_Stream->eof();
+
+    char ch;
+    return !peek(ch);
 }
 
 void StandardStreamDevice::writeBuffer(const char* buffer, size_t size)
 {
     PDFMM_INVARIANT(m_ostream != nullptr);
+    prepareWrite();
     m_ostream->write(buffer, size);
     if (m_ostream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to write the given buffer");
@@ -260,7 +281,10 @@ void StandardStreamDevice::writeBuffer(const char* buffer, size_t size)
 
 void StandardStreamDevice::flush()
 {
-    PDFMM_INVARIANT(m_ostream != nullptr);
+    // There's nothing to flush if the stream is only readable
+    if (m_ostream == nullptr)
+        return;
+
     m_ostream->flush();
     if (m_ostream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to flush the stream");
@@ -269,6 +293,7 @@ void StandardStreamDevice::flush()
 size_t StandardStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
 {
     PDFMM_INVARIANT(m_Stream != nullptr);
+    prepareRead();
     if (m_istream->eof())
     {
         eof = true;
@@ -281,6 +306,7 @@ size_t StandardStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
 bool StandardStreamDevice::readChar(char& ch)
 {
     PDFMM_INVARIANT(m_Stream != nullptr);
+    prepareRead();
     if (m_istream->eof())
     {
         ch = '\0';
@@ -295,6 +321,7 @@ bool StandardStreamDevice::peek(char& ch) const
     PDFMM_INVARIANT(m_istream != nullptr);
 
     int read;
+    prepareRead();
 
     // NOTE: We don't want a peek() call to set failbit
     if (m_istream->eof())
@@ -318,21 +345,19 @@ Eof:
 void StandardStreamDevice::seek(ssize_t offset, SeekDirection direction)
 {
     // NOTE: Some c++ libraries don't reset eofbit prior seeking
-    m_Stream->clear(m_Stream->rdstate() & ~ios_base::eofbit);
-    if ((GetAccess() & DeviceAccess::Read) != DeviceAccess{ })
-    {
-        PDFMM_INVARIANT(m_istream != nullptr);
+    auto state = m_Stream->rdstate() & ~ios_base::eofbit;
+    m_Stream->clear(state);
+    if (isReading())
         ::seek(*m_istream, offset, direction);
-    }
-
-    if ((GetAccess() & DeviceAccess::Write) != DeviceAccess{ })
-    {
-        PDFMM_INVARIANT(m_ostream != nullptr);
+    else
         ::seek(*m_ostream, offset, direction);
-    }
 
     if (m_Stream->fail())
+    {
+        // A refused seek doesn't prevent the device from being used
+        m_Stream->clear(state);
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to seek to given position in the stream");
+    }
 }
 
 FileStreamDevice::FileStreamDevice(const string_view& filepath)
@@ -404,6 +429,7 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
         case FileMode::CreateNew:
             if (fs::exists(filename))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must not exist");
+            openmode |= ios_base::trunc;
             break;
         case FileMode::Create:
             openmode |= ios_base::trunc;
@@ -411,8 +437,14 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
         case FileMode::Open:
             if ((access & DeviceAccess::Write) != DeviceAccess{ } && !fs::exists(filename))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must exist");
+
+            // NOTE: Opening the file with only ios_base::out would truncate it
+            openmode |= ios_base::in;
             break;
         case FileMode::OpenOrCreate:
+            // NOTE: Opening the file with only ios_base::out would truncate it, and
+            // opening a file that doesn't exist with ios_base::in would fail
+            openmode |= fs::exists(filename) ? ios_base::in : ios_base::trunc;
             break;
         case FileMode::Truncate:
             if (!fs::exists(filename))
@@ -500,7 +532,7 @@ bool NullStreamDevice::readChar(char& ch)
         return false;
 
     m_Position++;
-    return false;
+    return true;
 }
 
 void NullStreamDevice::seek(ssize_t offset, SeekDirection direction)
diff --git a/src/pdfmm/base/PdfStreamDevice.h b/src/pdfmm/base/PdfStreamDevice.h
index 79a026e..dbd8b60 100644
--- a/src/pdfmm/base/PdfStreamDevice.h
+++ b/src/pdfmm/base/PdfStreamDevice.h
@@ -72,8 +72,13 @@ protected:
 
 private:
     StandardStreamDevice(DeviceAccess access, std::ios* stream, std::istream* istream, std::ostream* ostream, bool streamOwned);
+    bool isReading() const;
+    void prepareRead() const;
+    void prepareWrite();
 
 private:
+    // True if the position of the input stream is the position of the device
+    mutable bool m_reading;
     std::ios* m_Stream;
     std::istream* m_istream;
     std::ostream* m_ostream;
diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 615fe16..052d6b7 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -850,6 +850,7 @@ bool utls::ReadChar(istream& stream, char& ch)
 
     } while (!stream.eof());
 
+    ch = '\0';
     return false;
 }
 
-- 
2.43.0


From aec285b1e1a3fb7061bd2e6e3ed75b729a5a04ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 071/171] fix: Read the filters of a stream before its data

---
 src/pdfmm/base/PdfParserObject.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index ef41a07..905cae8 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -169,6 +169,10 @@ void PdfParserObject::parseStream()
     if (!lengthObj.TryGetNumber(size))
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidStreamLength);
 
+    // NOTE: Retrieve the filters now, as this may load other
+    // objects and move the position of the device
+    auto filters = PdfFilterFactory::CreateFilterList(*this);
+
     m_device->Seek(m_StreamOffset);
 
     size_t streamOffset;
@@ -216,25 +220,26 @@ void PdfParserObject::parseStream()
 
 ReadStream:
     m_device->Seek(streamOffset);	// reset it before reading!
+    auto encrypt = m_Encrypt;
     if (m_Encrypt != nullptr && !m_Encrypt->IsMetadataEncrypted())
     {
         // If metadata is not encrypted the Filter is set to "Crypt"
-        for (auto filter : PdfFilterFactory::CreateFilterList(*this))
+        for (auto filter : filters)
         {
             if (filter == PdfFilterType::Crypt)
-                m_Encrypt = nullptr;
+                encrypt = nullptr;
         }
     }
 
     // Set stream raw data without marking the object dirty
-    if (m_Encrypt != nullptr)
+    if (encrypt != nullptr)
     {
-        auto input = m_Encrypt->CreateEncryptionInputStream(*m_device, static_cast<size_t>(size), GetIndirectReference());
-        getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
+        auto input = encrypt->CreateEncryptionInputStream(*m_device, static_cast<size_t>(size), GetIndirectReference());
+        getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), std::move(filters));
     }
     else
     {
-        getOrCreateStream().InitData(*m_device, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
+        getOrCreateStream().InitData(*m_device, static_cast<ssize_t>(size), std::move(filters));
     }
 }
 
-- 
2.43.0


From 4aa3615a61df2ef422f73c8dc76825eb0cdd1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 072/171] fix: Decode streams with a Crypt filter

---
 src/pdfmm/base/PdfFilter.cpp            |  4 +++-
 src/pdfmm/private/PdfFiltersPrivate.cpp | 10 ++++++++++
 src/pdfmm/private/PdfFiltersPrivate.h   | 17 +++++++++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index 55814fd..627536a 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -269,12 +269,14 @@ unique_ptr<PdfFilter> PdfFilterFactory::Create(PdfFilterType filterType)
         case PdfFilterType::RunLengthDecode:
             filter = new PdfRLEFilter();
             break;
+        case PdfFilterType::Crypt:
+            filter = new PdfCryptFilter();
+            break;
         case PdfFilterType::None:
         case PdfFilterType::DCTDecode:
         case PdfFilterType::CCITTFaxDecode:
         case PdfFilterType::JBIG2Decode:
         case PdfFilterType::JPXDecode:
-        case PdfFilterType::Crypt:
         default:
             break;
     }
diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index e42bfe0..911bcde 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -611,6 +611,16 @@ void PdfFlateFilter::EndDecodeImpl()
 
 #pragma region PdfRLEFilter
 
+void PdfCryptFilter::EncodeBlockImpl(const char*, size_t)
+{
+    PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedFilter);
+}
+
+void PdfCryptFilter::DecodeBlockImpl(const char* buffer, size_t len)
+{
+    GetStream()->Write(buffer, len);
+}
+
 PdfRLEFilter::PdfRLEFilter()
     : m_LiteralCount(0), m_RepeatCount(0), m_Eod(false)
 {
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 6534ac1..0abee72 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -154,6 +154,23 @@ private:
     bool m_Eod;
 };
 
+/** The Crypt filter. The decryption is done when the stream
+ * is read from the file, so there's nothing left to decode
+ */
+class PdfCryptFilter final : public PdfFilter
+{
+public:
+    inline bool CanEncode() const override { return false; }
+
+    void EncodeBlockImpl(const char* buffer, size_t len) override;
+
+    inline bool CanDecode() const override { return true; }
+
+    void DecodeBlockImpl(const char* buffer, size_t len) override;
+
+    inline PdfFilterType GetType() const override { return PdfFilterType::Crypt; }
+};
+
 /** The LZW filter.
  */
 class PdfLZWFilter final : public PdfFilter
-- 
2.43.0


From 24988afbce544bf7c5579937d00c9aca008f07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 073/171] fix: Load all objects at once also with object
 streams

---
 src/pdfmm/base/PdfParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 16494f2..1bca3d7 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -802,8 +802,10 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
         // in a second pass, or (if demand loading is enabled) defer it for later.
         for (auto objToLoad : *m_Objects)
         {
+            // NOTE: Objects read from object streams are already complete
             auto obj = dynamic_cast<PdfParserObject*>(objToLoad);
-            obj->ParseStream();
+            if (obj != nullptr)
+                obj->ParseStream();
         }
     }
 
-- 
2.43.0


From 82a1b6b69744ae8980e965223ed2da53a0c9b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 074/171] fix: Resolve the decode parameters of copied streams

---
 src/pdfmm/base/PdfObjectStream.cpp | 38 ++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 8955edb..ab6cbdb 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -243,6 +243,40 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     m_Filters = std::move(rhs.m_Filters);
 }
 
+// Replace the references in filters and decode parameters, so they can be
+// used without the document they belong to. References to streams
+// (eg. /JBIG2Globals) are preserved
+static PdfObject resolveReferences(const PdfObject& obj, unsigned depth = 0)
+{
+    constexpr unsigned MaxDepth = 4;
+    PdfObject ret(obj.GetVariant());
+    if (depth == MaxDepth)
+        return ret;
+
+    auto resolve = [depth](const PdfObject& item, const PdfObject* resolved) -> PdfObject
+    {
+        if (resolved == nullptr || (item.IsReference() && resolved->HasStream()))
+            return PdfObject(item.GetVariant());
+
+        return resolveReferences(*resolved, depth + 1);
+    };
+
+    if (obj.IsArray())
+    {
+        auto& arr = obj.GetArray();
+        for (unsigned i = 0; i < arr.GetSize(); i++)
+            ret.GetArray()[i] = resolve(arr[i], arr.FindAt(i));
+    }
+    else if (obj.IsDictionary())
+    {
+        auto& dict = obj.GetDictionary();
+        for (auto& pair : dict)
+            ret.GetDictionary().AddKey(pair.first, resolve(pair.second, dict.FindKey(pair.first)));
+    }
+
+    return ret;
+}
+
 void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
 {
     ensureClosed();
@@ -259,13 +293,13 @@ void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
     if (filter == nullptr)
         lhsDict.RemoveKey(PdfName::KeyFilter);
     else
-        lhsDict.AddKey(PdfName::KeyFilter, *filter);
+        lhsDict.AddKey(PdfName::KeyFilter, resolveReferences(*filter));
 
     auto decodeParms = rhsDict.FindKey(DecodeParmsKey);
     if (decodeParms == nullptr)
         lhsDict.RemoveKey(DecodeParmsKey);
     else
-        lhsDict.AddKey(DecodeParmsKey, *decodeParms);
+        lhsDict.AddKey(DecodeParmsKey, resolveReferences(*decodeParms));
 
     m_Filters = rhs.m_Filters;
 }
-- 
2.43.0


From 94ce7cd1f6d3be7396fc2fbaec617d893be8ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 075/171] fix: Use offsets relative to the header in all
 sections

---
 src/pdfmm/base/PdfMemDocument.cpp            |  9 +++++++--
 src/pdfmm/base/PdfMemDocument.h              |  1 +
 src/pdfmm/base/PdfParser.cpp                 | 10 +++++++---
 src/pdfmm/base/PdfParser.h                   |  5 +++++
 src/pdfmm/base/PdfWriter.cpp                 |  7 ++++---
 src/pdfmm/base/PdfWriter.h                   | 10 ++++++++++
 src/pdfmm/base/PdfXRef.cpp                   |  2 +-
 src/pdfmm/base/PdfXRefStream.cpp             |  2 +-
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 10 ++++++----
 src/pdfmm/base/PdfXRefStreamParserObject.h   |  3 ++-
 10 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 68071c8..dccaac1 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -42,7 +42,8 @@ PdfMemDocument::PdfMemDocument(bool empty) :
     m_Version(PdfVersionDefault),
     m_InitialVersion(PdfVersionDefault),
     m_HasXRefStream(false),
-    m_PrevXRefOffset(-1)
+    m_PrevXRefOffset(-1),
+    m_HeaderOffset(0)
 {
 }
 
@@ -60,7 +61,8 @@ PdfMemDocument::PdfMemDocument(const PdfMemDocument& rhs) :
     m_Version(rhs.m_Version),
     m_InitialVersion(rhs.m_InitialVersion),
     m_HasXRefStream(rhs.m_HasXRefStream),
-    m_PrevXRefOffset(rhs.m_PrevXRefOffset)
+    m_PrevXRefOffset(rhs.m_PrevXRefOffset),
+    m_HeaderOffset(rhs.m_HeaderOffset)
 {
     if (rhs.m_Encrypt != nullptr)
         m_Encrypt = PdfEncrypt::CreateFromEncrypt(*rhs.m_Encrypt);
@@ -77,6 +79,7 @@ void PdfMemDocument::clear()
 {
     m_HasXRefStream = false;
     m_PrevXRefOffset = -1;
+    m_HeaderOffset = 0;
     m_Encrypt = nullptr;
     m_LoadEncrypt = nullptr;
     m_device = nullptr;
@@ -88,6 +91,7 @@ void PdfMemDocument::initFromParser(PdfParser& parser)
     m_InitialVersion = m_Version;
     m_HasXRefStream = parser.HasXRefStream();
     m_PrevXRefOffset = parser.GetXRefOffset();
+    m_HeaderOffset = parser.GetHeaderOffset();
 
     auto trailer = std::make_unique<PdfObject>(parser.GetTrailer());
     this->SetTrailer(std::move(trailer)); // Set immediately as trailer
@@ -278,6 +282,7 @@ void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
     writer.SetPdfVersion(this->GetPdfVersion());
     writer.SetSaveOptions(opts);
     writer.SetPrevXRefOffset(m_PrevXRefOffset);
+    writer.SetHeaderOffset(m_HeaderOffset);
     writer.SetUseXRefStream(m_HasXRefStream);
     writer.SetIncrementalUpdate(false);
 
diff --git a/src/pdfmm/base/PdfMemDocument.h b/src/pdfmm/base/PdfMemDocument.h
index d80cae8..71d94bd 100644
--- a/src/pdfmm/base/PdfMemDocument.h
+++ b/src/pdfmm/base/PdfMemDocument.h
@@ -251,6 +251,7 @@ private:
     PdfVersion m_InitialVersion;
     bool m_HasXRefStream;
     int64_t m_PrevXRefOffset;
+    size_t m_HeaderOffset;
     std::unique_ptr<PdfEncrypt> m_Encrypt;
     std::unique_ptr<PdfEncrypt> m_LoadEncrypt; // Loaded encryption that was replaced, still used by objects not yet read
     std::shared_ptr<InputStreamDevice> m_device;
diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 1bca3d7..6f04bf1 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -244,7 +244,7 @@ void PdfParser::ReadNextTrailer(InputStreamDevice& device)
 
             try
             {
-                ReadXRefStreamContents(device, static_cast<size_t>(trailer->GetDictionary().FindKeyAs<int64_t>("XRefStm", 0)), false);
+                ReadXRefStreamContents(device, static_cast<size_t>(trailer->GetDictionary().FindKeyAs<int64_t>("XRefStm", 0)) + m_magicOffset, false);
             }
             catch (PdfError& e)
             {
@@ -260,6 +260,9 @@ void PdfParser::ReadNextTrailer(InputStreamDevice& device)
         {
             if (offset > 0)
             {
+                // Support also files with whitespace offset before magic start
+                offset += (int64_t)m_magicOffset;
+
                 // Whenever we read a Prev key, 
                 // we know that the file was updated.
                 m_IncrementalUpdateCount++;
@@ -575,11 +578,12 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
     if (readOnlyTrailer)
         return;
 
-    xrefObjTrailer->ReadXRefTable();
+    xrefObjTrailer->ReadXRefTable(m_magicOffset);
 
     // Check for a previous XRefStm or xref table
     size_t previousOffset;
-    if (xrefObjTrailer->TryGetPreviousOffset(previousOffset) && previousOffset != offset)
+    if (xrefObjTrailer->TryGetPreviousOffset(previousOffset)
+        && (previousOffset += m_magicOffset) != offset)
     {
         try
         {
diff --git a/src/pdfmm/base/PdfParser.h b/src/pdfmm/base/PdfParser.h
index b7872af..e8077ed 100644
--- a/src/pdfmm/base/PdfParser.h
+++ b/src/pdfmm/base/PdfParser.h
@@ -178,6 +178,11 @@ public:
 
     inline size_t GetXRefOffset() const { return m_XRefOffset; }
 
+    /** Get the offset of the PDF header in the file. All
+     *  offsets in the file are relative to it
+     */
+    inline size_t GetHeaderOffset() const { return m_magicOffset; }
+
     inline bool HasXRefStream() const { return m_HasXRefStream; }
 
 private:
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 6b41f38..278f97e 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -37,6 +37,7 @@ PdfWriter::PdfWriter(PdfIndirectObjectList* objects, const PdfObject& trailer, P
     m_SaveOptions(PdfSaveOptions::None),
     m_WriteFlags(PdfWriteFlags::None),
     m_PrevXRefOffset(0),
+    m_HeaderOffset(0),
     m_IncrementalUpdate(false),
     m_rewriteXRefTable(false),
     m_keepOriginalIdentifier(false)
@@ -168,7 +169,7 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
                     // the offset points just after the "0 0 obj" string
                     if (parserObject->GetOffset() - objRefLength > 0)
                     {
-                        xref.AddInUseObject(obj->GetIndirectReference(), parserObject->GetOffset() - objRefLength);
+                        xref.AddInUseObject(obj->GetIndirectReference(), parserObject->GetOffset() - objRefLength - m_HeaderOffset);
                         continue;
                     }
                 }
@@ -190,7 +191,7 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
         }
         else
         {
-            xref.AddInUseObject(obj->GetIndirectReference(), device.GetPosition());
+            xref.AddInUseObject(obj->GetIndirectReference(), device.GetPosition() - m_HeaderOffset);
             // Also make sure that we do not encrypt the encryption dictionary!
             obj->Write(device, m_WriteFlags, obj == m_EncryptObj ? nullptr : m_Encrypt.get(), m_buffer);
         }
@@ -232,7 +233,7 @@ void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySize
 
         if (!m_rewriteXRefTable && m_PrevXRefOffset > 0)
         {
-            PdfVariant value(m_PrevXRefOffset);
+            PdfVariant value(m_PrevXRefOffset - (int64_t)m_HeaderOffset);
             trailer.GetDictionary().AddKey("Prev", value);
         }
     }
diff --git a/src/pdfmm/base/PdfWriter.h b/src/pdfmm/base/PdfWriter.h
index 2b5a6c8..b5c5782 100644
--- a/src/pdfmm/base/PdfWriter.h
+++ b/src/pdfmm/base/PdfWriter.h
@@ -114,6 +114,15 @@ public:
      */
     inline int64_t GetPrevXRefOffset() const { return m_PrevXRefOffset; }
 
+    /** Set the offset of the PDF header in an already existing file
+     *  All offsets written are relative to it
+     *
+     *  \see SetIncrementalUpdate
+     */
+    inline void SetHeaderOffset(size_t headerOffset) { m_HeaderOffset = headerOffset; }
+
+    inline size_t GetHeaderOffset() const { return m_HeaderOffset; }
+
     /** Set whether writing an incremental update.
      *  Default is false.
      *  \param incrementalUpdate if true an incremental update will be written
@@ -190,6 +199,7 @@ private:
     PdfString m_identifier;
     PdfString m_originalIdentifier; // used for incremental update
     int64_t m_PrevXRefOffset;
+    size_t m_HeaderOffset;
     bool m_IncrementalUpdate;
     bool m_rewriteXRefTable; // Only used if incremental update
     bool m_keepOriginalIdentifier;             // The first identifier has to be preserved
diff --git a/src/pdfmm/base/PdfXRef.cpp b/src/pdfmm/base/PdfXRef.cpp
index 6e04426..23f4cfc 100644
--- a/src/pdfmm/base/PdfXRef.cpp
+++ b/src/pdfmm/base/PdfXRef.cpp
@@ -90,7 +90,7 @@ void PdfXRef::Write(OutputStreamDevice& device, charbuff& buffer)
 
     mergeBlocks();
 
-    m_offset = device.GetPosition();
+    m_offset = device.GetPosition() - m_writer->GetHeaderOffset();
     this->BeginWrite(device, buffer);
     while (it != m_blocks.end())
     {
diff --git a/src/pdfmm/base/PdfXRefStream.cpp b/src/pdfmm/base/PdfXRefStream.cpp
index 6bdbf35..6acdcb3 100644
--- a/src/pdfmm/base/PdfXRefStream.cpp
+++ b/src/pdfmm/base/PdfXRefStream.cpp
@@ -92,7 +92,7 @@ void PdfXRefStream::EndWriteImpl(OutputStreamDevice& device, charbuff& buffer)
     m_xrefStreamObj->GetDictionary().AddKey("W", wArr);
  
     // Set the actual offset of the XRefStm object
-    uint32_t offset = (uint32_t)device.GetPosition();
+    uint32_t offset = (uint32_t)(device.GetPosition() - GetWriter().GetHeaderOffset());
     PDFMM_ASSERT(m_xrefStreamEntryIndex >= 0);
     m_rawEntries[m_xrefStreamEntryIndex].Variant = AS_BIG_ENDIAN(offset);
  
diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index a4a65c5..8f704e1 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -23,7 +23,7 @@ PdfXRefStreamParserObject::PdfXRefStreamParserObject(InputStreamDevice& device,
     : PdfXRefStreamParserObject(nullptr, device, entries) { }
 
 PdfXRefStreamParserObject::PdfXRefStreamParserObject(PdfDocument* doc, InputStreamDevice& device, PdfXRefEntries& entries)
-    : PdfParserObject(doc, PdfReference(), device, -1), m_NextOffset(-1), m_entries(&entries)
+    : PdfParserObject(doc, PdfReference(), device, -1), m_NextOffset(-1), m_headerOffset(0), m_entries(&entries)
 {
 }
 
@@ -58,8 +58,9 @@ void PdfXRefStreamParserObject::DelayedLoadImpl()
         PDFMM_RAISE_ERROR(PdfErrorCode::NoXRef);
 }
 
-void PdfXRefStreamParserObject::ReadXRefTable()
+void PdfXRefStreamParserObject::ReadXRefTable(size_t headerOffset)
 {
+    m_headerOffset = headerOffset;
     int64_t size = this->GetDictionary().FindKeyAs<int64_t>(PdfName::KeySize, 0);
     auto& arrObj = this->GetDictionary().MustFindKey("W");
 
@@ -203,10 +204,11 @@ void PdfXRefStreamParserObject::readXRefStreamEntry(PdfXRefEntry& entry, char* b
             break;
         case 1:
             // normal uncompressed object
-            if (entryRaw[1] > PTRDIFF_MAX)
+            if (entryRaw[1] > PTRDIFF_MAX - m_headerOffset)
                 PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-            entry.Offset = entryRaw[1];
+            // Support also files with whitespace offset before magic start
+            entry.Offset = entryRaw[1] + m_headerOffset;
             entry.Generation = (uint32_t)entryRaw[2];
             entry.Type = XRefEntryType::InUse;
             break;
diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.h b/src/pdfmm/base/PdfXRefStreamParserObject.h
index 63ab275..ea66141 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.h
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.h
@@ -49,7 +49,7 @@ public:
 public:
     void DelayedLoadImpl() override;
 
-    void ReadXRefTable();
+    void ReadXRefTable(size_t headerOffset = 0);
 
     /**
      * \returns the offset of the previous XRef table
@@ -83,6 +83,7 @@ private:
 
 private:
     ssize_t m_NextOffset;
+    size_t m_headerOffset;
     PdfXRefEntries* m_entries;
 };
 
-- 
2.43.0


From 206dfc41a5969b39365be2f435f0655b7e55ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 076/171] fix: Report failures to flush and clean up after
 failed writes

---
 src/pdfmm/base/PdfWriter.cpp     | 34 +++++++++++++++++++++-----------
 src/pdfmm/base/PdfXRef.cpp       |  6 ++++++
 src/pdfmm/base/PdfXRef.h         |  4 ++++
 src/pdfmm/base/PdfXRefStream.cpp |  9 +++++++++
 src/pdfmm/base/PdfXRefStream.h   |  2 ++
 5 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 278f97e..75b3276 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -110,6 +110,19 @@ void PdfWriter::Write(OutputStreamDevice& device)
     else
         xRef.reset(new PdfXRef(*this));
 
+    // Delete the objects that were created only for this write, also on failures
+    auto cleanup = [&]()
+    {
+        // P.Zent: Delete Encryption dictionary (cannot be reused)
+        if (m_EncryptObj != nullptr)
+        {
+            m_Objects->RemoveObject(m_EncryptObj->GetIndirectReference());
+            m_EncryptObj = nullptr;
+        }
+
+        xRef->RemoveObjects(*m_Objects);
+    };
+
     try
     {
         if (!m_IncrementalUpdate)
@@ -121,26 +134,23 @@ void PdfWriter::Write(OutputStreamDevice& device)
             xRef->SetFirstEmptyBlock();
 
         xRef->Write(device, m_buffer);
+
+        // Failures to write buffered data must be reported
+        device.Flush();
     }
     catch (PdfError& e)
     {
-        // P.Zent: Delete Encryption dictionary (cannot be reused)
-        if (m_EncryptObj != nullptr)
-        {
-            m_Objects->RemoveObject(m_EncryptObj->GetIndirectReference());
-            m_EncryptObj = nullptr;
-        }
-
+        cleanup();
         PDFMM_PUSH_FRAME(e);
         throw e;
     }
-
-    // P.Zent: Delete Encryption dictionary (cannot be reused)
-    if (m_EncryptObj != nullptr)
+    catch (...)
     {
-        m_Objects->RemoveObject(m_EncryptObj->GetIndirectReference());
-        m_EncryptObj = nullptr;
+        cleanup();
+        throw;
     }
+
+    cleanup();
 }
 
 void PdfWriter::WritePdfHeader(OutputStreamDevice& device)
diff --git a/src/pdfmm/base/PdfXRef.cpp b/src/pdfmm/base/PdfXRef.cpp
index 23f4cfc..d43380a 100644
--- a/src/pdfmm/base/PdfXRef.cpp
+++ b/src/pdfmm/base/PdfXRef.cpp
@@ -316,6 +316,12 @@ void PdfXRef::SetFirstEmptyBlock()
     m_blocks.insert(m_blocks.begin(), block);
 }
 
+void PdfXRef::RemoveObjects(PdfIndirectObjectList& objects)
+{
+    (void)objects;
+    // No objects are created for a PdfXRef table
+}
+
 bool PdfXRef::ShouldSkipWrite(const PdfReference& ref)
 {
     (void)ref;
diff --git a/src/pdfmm/base/PdfXRef.h b/src/pdfmm/base/PdfXRef.h
index 7595fe7..16a79c1 100644
--- a/src/pdfmm/base/PdfXRef.h
+++ b/src/pdfmm/base/PdfXRef.h
@@ -122,6 +122,10 @@ public:
      * \returns the offset in the file at which the XRef table
      *          starts after it was written
      */
+    /** Remove the objects created by this instance
+     */
+    virtual void RemoveObjects(PdfIndirectObjectList& objects);
+
     inline virtual uint64_t GetOffset() const { return m_offset; }
 
 protected:
diff --git a/src/pdfmm/base/PdfXRefStream.cpp b/src/pdfmm/base/PdfXRefStream.cpp
index 6acdcb3..538100e 100644
--- a/src/pdfmm/base/PdfXRefStream.cpp
+++ b/src/pdfmm/base/PdfXRefStream.cpp
@@ -30,6 +30,15 @@ uint64_t PdfXRefStream::GetOffset() const
     return (uint64_t)m_offset;
 }
 
+void PdfXRefStream::RemoveObjects(PdfIndirectObjectList& objects)
+{
+    if (m_xrefStreamObj == nullptr)
+        return;
+
+    objects.RemoveObject(m_xrefStreamObj->GetIndirectReference());
+    m_xrefStreamObj = nullptr;
+}
+
 bool PdfXRefStream::ShouldSkipWrite(const PdfReference& ref)
 {
     // We handle writing for the XRefStm object
diff --git a/src/pdfmm/base/PdfXRefStream.h b/src/pdfmm/base/PdfXRefStream.h
index 266f268..970ed92 100644
--- a/src/pdfmm/base/PdfXRefStream.h
+++ b/src/pdfmm/base/PdfXRefStream.h
@@ -39,6 +39,8 @@ public:
 
     bool ShouldSkipWrite(const PdfReference& ref) override;
 
+    void RemoveObjects(PdfIndirectObjectList& objects) override;
+
 protected:
     void BeginWrite(OutputStreamDevice& device, charbuff& buffer) override;
     void WriteSubSection(OutputStreamDevice& device, uint32_t first, uint32_t count,
-- 
2.43.0


From 1bbb581e07e2592277ff156266f5db5d33be953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 077/171] fix: Do not throw from the destructor of an encode
 stream

---
 src/pdfmm/base/PdfFilter.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index 627536a..9550a27 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -30,7 +30,19 @@ private:
     }
     ~PdfFilteredEncodeStream()
     {
-        m_filter->EndEncode();
+        try
+        {
+            m_filter->EndEncode();
+        }
+        catch (PdfError& e)
+        {
+            // Destructors must not throw
+            mm::LogMessage(PdfLogSeverity::Error, "Unable to write the end of the encoded data: {}", e.what());
+        }
+        catch (...)
+        {
+            mm::LogMessage(PdfLogSeverity::Error, "Unable to write the end of the encoded data");
+        }
     }
 public:
     PdfFilteredEncodeStream(const shared_ptr<OutputStream>& outputStream, PdfFilterType filterType)
@@ -408,8 +420,9 @@ void PdfFilter::EndEncode()
         throw;
     }
 
-    m_OutputStream->Flush();
+    auto output = m_OutputStream;
     m_OutputStream = nullptr;
+    output->Flush();
 }
 
 void PdfFilter::BeginDecode(OutputStream& output, const PdfDictionary* decodeParms)
@@ -479,8 +492,17 @@ void PdfFilter::EndDecode()
 
 void PdfFilter::FailEncodeDecode()
 {
-    if (m_OutputStream != nullptr)
-        m_OutputStream->Flush();
-
+    auto output = m_OutputStream;
     m_OutputStream = nullptr;
+    if (output == nullptr)
+        return;
+
+    try
+    {
+        output->Flush();
+    }
+    catch (...)
+    {
+        // The original failure has to be reported
+    }
 }
-- 
2.43.0


From 61eaacad1df6981bfbe36cc8195d1633d2491bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:51 +0000
Subject: [PATCH 078/171] fix: Declare the object list where it is used

---
 src/pdfmm/base/PdfXRef.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfXRef.h b/src/pdfmm/base/PdfXRef.h
index 16a79c1..8f2528c 100644
--- a/src/pdfmm/base/PdfXRef.h
+++ b/src/pdfmm/base/PdfXRef.h
@@ -15,6 +15,7 @@
 namespace mm {
 
 class PdfWriter;
+class PdfIndirectObjectList;
 
 /**
  * Creates an XRef table.
-- 
2.43.0


From 795fc53faca0a133700bd00bc731e0d84aa43ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 079/171] fix: Throw on content warnings only if there are any

---
 src/pdfmm/base/PdfContentsReader.cpp | 7 ++++---
 src/pdfmm/base/PdfContentsReader.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 7e7b2c0..77ca11d 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -87,7 +87,7 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
 
     HandleContent:
         afterReadClear(content);
-        handleWarnings();
+        handleWarnings(content);
         return true;
 
     PopDevice:
@@ -423,9 +423,10 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
     return false;
 }
 
-void PdfContentsReader::handleWarnings()
+void PdfContentsReader::handleWarnings(const PdfContent& content)
 {
-    if ((m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
+    if (content.Warnings != PdfContentWarnings::None
+        && (m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidContentStream, "Unsupported PostScript content");
 }
 
diff --git a/src/pdfmm/base/PdfContentsReader.h b/src/pdfmm/base/PdfContentsReader.h
index e549c37..fdd55ad 100644
--- a/src/pdfmm/base/PdfContentsReader.h
+++ b/src/pdfmm/base/PdfContentsReader.h
@@ -105,7 +105,7 @@ private:
 
     void tryFollowXObject(PdfContent& content);
 
-    void handleWarnings();
+    void handleWarnings(const PdfContent& content);
 
     bool isCalledRecursively(const PdfObject* xobj);
 
-- 
2.43.0


From 6383d09b70f3389aae95d2758ffac095b83e109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 080/171] fix: Accept XObjects without the optional Type

---
 src/pdfmm/base/PdfXObject.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfXObject.cpp b/src/pdfmm/base/PdfXObject.cpp
index 120fa1d..a65ea3f 100644
--- a/src/pdfmm/base/PdfXObject.cpp
+++ b/src/pdfmm/base/PdfXObject.cpp
@@ -67,10 +67,11 @@ bool PdfXObject::tryCreateFromObject(const PdfObject& obj, PdfXObjectType xobjTy
     const PdfDictionary* dict;
     const PdfObject* typeObj;
     const PdfName* name;
+    // NOTE: The /Type key is optional
     if (!obj.TryGetDictionary(dict)
-        || (typeObj = dict->GetKey(PdfName::KeyType)) == nullptr
-        || !typeObj->TryGetName(name)
-        || name->GetString() != "XObject")
+        || ((typeObj = dict->FindKey(PdfName::KeyType)) != nullptr
+            && (!typeObj->TryGetName(name)
+                || name->GetString() != "XObject")))
     {
         xobj = nullptr;
         return false;
-- 
2.43.0


From 1b811d7f5e204610f74d524bd201eb36486f995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 081/171] fix: Find EI after an E and at the end of the
 contents

---
 src/pdfmm/base/PdfContentsReader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 77ca11d..aca98ae 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -391,7 +391,7 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
             {
                 if (ch == 'I')
                     status = ReadEIStatus::ReadWhiteSpace;
-                else
+                else if (ch != 'E')
                     status = ReadEIStatus::ReadE;
 
                 break;
@@ -403,6 +403,8 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
                     data = bufferview(m_buffer->data(), readCount - 2);
                     return true;
                 }
+                else if (ch == 'E')
+                    status = ReadEIStatus::ReadI;
                 else
                     status = ReadEIStatus::ReadE;
 
@@ -420,6 +422,13 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
         readCount++;
     }
 
+    if (status == ReadEIStatus::ReadWhiteSpace)
+    {
+        // The content ends right after the EI operator
+        data = bufferview(m_buffer->data(), readCount - 2);
+        return true;
+    }
+
     return false;
 }
 
-- 
2.43.0


From 430f688aac53db23906854f8d81d7809eddafb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 082/171] fix: Keep content streams apart when concatenating
 them

---
 src/pdfmm/base/PdfContents.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfContents.cpp b/src/pdfmm/base/PdfContents.cpp
index e8565a0..db168aa 100644
--- a/src/pdfmm/base/PdfContents.cpp
+++ b/src/pdfmm/base/PdfContents.cpp
@@ -132,12 +132,25 @@ PdfObjectStream & PdfContents::GetStreamForAppending(PdfStreamAppendFlags flags)
 
 void PdfContents::copyTo(OutputStream& stream, const PdfArray& arr) const
 {
+    // NOTE: Streams end at the boundaries of lexical
+    // tokens, so they must be kept separated
+    bool first = true;
     for (unsigned i = 0; i < arr.GetSize(); i++)
     {
         const PdfObjectStream* objStream;
         auto streamObj = arr.FindAt(i);
-        if (streamObj != nullptr && (objStream = streamObj->GetStream()) != nullptr)
-            objStream->CopyTo(stream);
+        if (streamObj == nullptr || (objStream = streamObj->GetStream()) == nullptr)
+            continue;
+
+        auto buffer = objStream->GetCopy();
+        if (buffer.size() == 0)
+            continue;
+
+        if (!first)
+            stream.Write('\n');
+
+        stream.Write(buffer);
+        first = false;
     }
 }
 
-- 
2.43.0


From 456372283ca4ebdf56cde692024a474781851db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 083/171] fix: Do not lose contents when reading them in blocks

---
 src/pdfmm/base/PdfCanvasInputDevice.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfCanvasInputDevice.cpp b/src/pdfmm/base/PdfCanvasInputDevice.cpp
index 1c0cb19..a210c0a 100644
--- a/src/pdfmm/base/PdfCanvasInputDevice.cpp
+++ b/src/pdfmm/base/PdfCanvasInputDevice.cpp
@@ -102,9 +102,6 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
             return count;
         }
 
-        if (size == 0)
-            return count;
-
         if (m_deviceSwitchOccurred)
         {
             // Handle device switch by inserting
@@ -124,6 +121,12 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
         read = device->Read(buffer + count, size, eof);
         size -= read;
         count += read;
+        if (size == 0)
+        {
+            // More data can follow, also from other devices
+            eof = false;
+            return count;
+        }
     }
 }
 
-- 
2.43.0


From 5e0a9e6e82a31daa4b84e3cb3a91c5a0d7dd635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 084/171] fix: a file without trailer is an error, not a null
 dereference

---
 src/pdfmm/base/PdfParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 6f04bf1..33a774e 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -609,7 +609,10 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
 
 void PdfParser::ReadObjects(InputStreamDevice& device)
 {
-    PDFMM_ASSERT(m_Trailer != nullptr);
+    // The trailer may be missing or unreadable
+    if (m_Trailer == nullptr)
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoTrailer);
+
     // Check for encryption and make sure that the encryption object
     // is loaded before all other objects
     PdfObject* encrypt = m_Trailer->GetDictionary().GetKey("Encrypt");
-- 
2.43.0


From 98e3af7d2d7d24fcbb461469fda6d82e8ad11ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 085/171] fix: check the entries, Index and Prev of
 cross-reference streams

---
 src/pdfmm/base/PdfParser.cpp                 |  4 +++-
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 33a774e..9c3b064 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -458,8 +458,10 @@ void PdfParser::ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObje
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: first object is negative");
     if (objectCount < 0)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: object count is negative");
+    if (firstObject > numeric_limits<int64_t>::max() - objectCount)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: too many objects");
 
-    m_entries.Enlarge((uint64_t)(firstObject + objectCount));
+    m_entries.Enlarge(firstObject + objectCount);
 
     // consume all whitespaces
     char ch;
diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index 8f704e1..4deebb2 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -52,7 +52,14 @@ void PdfXRefStreamParserObject::DelayedLoadImpl()
     }
 
     if (dict.HasKey("Prev"))
-        m_NextOffset = static_cast<ssize_t>(dict.FindKeyAs<double>("Prev", 0));
+    {
+        // The offset should be an integer but be tolerant with reals
+        double prev = dict.FindKeyAs<double>("Prev", 0);
+        if (!(prev >= 0 && prev < 9223372036854775808.0))
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid XRef stream /Prev");
+
+        m_NextOffset = static_cast<ssize_t>(prev);
+    }
 
     if (!this->HasStreamToParse())
         PDFMM_RAISE_ERROR(PdfErrorCode::NoXRef);
@@ -118,11 +125,14 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
     {
         int64_t firstObj = *it++;
         int64_t count = *it++;
+        if (firstObj < 0 || count < 0 || numeric_limits<int64_t>::max() - firstObj < count)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid XRef stream /Index");
 
         m_entries->Enlarge(firstObj + count);
         for (unsigned index = 0; index < (unsigned)count; index++)
         {
-            if ((size_t)(cursor - buffer.data()) >= buffer.size())
+            // The stream must contain the whole entry
+            if (entryLen == 0 || buffer.size() - (size_t)(cursor - buffer.data()) < entryLen)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid count in XRef stream");
 
             unsigned objIndex = (unsigned)firstObj + index;
-- 
2.43.0


From 3e81c80cc8be4d24bc2d41d34d6183d0bc8b12ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 086/171] fix: reject negative offsets in object streams

---
 src/pdfmm/base/PdfObjectStreamParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStreamParser.cpp b/src/pdfmm/base/PdfObjectStreamParser.cpp
index ddf516c..55c0750 100644
--- a/src/pdfmm/base/PdfObjectStreamParser.cpp
+++ b/src/pdfmm/base/PdfObjectStreamParser.cpp
@@ -53,7 +53,7 @@ void PdfObjectStreamParser::readObjectsFromStream(char* buffer, size_t bufferLen
         int64_t offset = tokenizer.ReadNextNumber(device);
         size_t pos = device.GetPosition();
 
-        if (first >= std::numeric_limits<int64_t>::max() - offset)
+        if (first < 0 || offset < 0 || first >= std::numeric_limits<int64_t>::max() - offset)
         {
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::BrokenFile,
                 "Object position out of max limit");
-- 
2.43.0


From c9b8e2c646fbe9c1f0cdf75811023b70d0dc9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 087/171] fix: compute character code sizes with integers

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 052d6b7..a02026e 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1064,12 +1064,16 @@ string utls::GetWin32ErrorMessage(unsigned rc)
 
 unsigned char utls::GetCharCodeSize(unsigned code)
 {
-    return (unsigned char)(std::log(code) / std::log(256)) + 1;
+    unsigned char ret = 1;
+    while ((code >>= CHAR_BIT) != 0)
+        ret++;
+
+    return ret;
 }
 
 unsigned utls::GetCharCodeMaxValue(unsigned char codeSize)
 {
-    return (unsigned)(std::pow(2, codeSize * CHAR_BIT)) - 1;
+    return (unsigned)((uint64_t(1) << (codeSize * CHAR_BIT)) - 1);
 }
 
 void utls::WriteUInt32BE(OutputStream& output, uint32_t value)
-- 
2.43.0


From 858a6e607e1304c71982027d7df00ea88fe1c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 088/171] fix: ignore unexpected keywords in text extraction

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 49c8677..212caae 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -406,6 +406,11 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                 // Ignore image data token
                 break;
             }
+            case PdfContentType::UnexpectedKeyword:
+            {
+                // Ignore unknown operators
+                break;
+            }
             case PdfContentType::DoXObject:
             {
                 if (content.XObject->GetType() == PdfXObjectType::Form)
-- 
2.43.0


From 2715c1dd8e597a577e7dd30ee1bd46603d62c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 089/171] fix: limit the number of filters of a stream

---
 src/pdfmm/base/PdfFilter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index 9550a27..26b5cca 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -368,6 +368,12 @@ PdfFilterList PdfFilterFactory::CreateFilterList(const PdfObject& filtersObj)
 
 void PdfFilterFactory::addFilterTo(PdfFilterList& filters, const string_view& filter)
 {
+    // Every filter adds a stage to the decoder. Limit
+    // their number, as no sensible stream has so many
+    constexpr unsigned MaxFilterCount = 64;
+    if (filters.size() == MaxFilterCount)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFilter, "The stream has too many filters");
+
     auto type = mm::NameToFilter(filter);
     filters.push_back(type);
 }
-- 
2.43.0


From f5bf8ae8bccef5d512a1cd73981019eda80225bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 090/171] fix: text extraction does not follow recursive forms

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 212caae..3681f03 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -113,7 +113,7 @@ private:
 
 struct XObjectState
 {
-    const PdfXObjectForm* Form;
+    shared_ptr<const PdfXObjectForm> Form;
     unsigned TextStateIndex;
 };
 
@@ -413,10 +413,12 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
             }
             case PdfContentType::DoXObject:
             {
-                if (content.XObject->GetType() == PdfXObjectType::Form)
+                // NOTE: Recursive forms are not followed
+                if (content.XObject->GetType() == PdfXObjectType::Form
+                    && (content.Warnings & PdfContentWarnings::RecursiveXObject) == PdfContentWarnings::None)
                 {
                     context.XObjectStateIndices.push_back({
-                        (const PdfXObjectForm*)content.XObject.get(),
+                        std::static_pointer_cast<const PdfXObjectForm>(content.XObject),
                         context.States.GetSize()
                     });
                     context.States.Push();
-- 
2.43.0


From ee94c34750c2e9b98842cf4011a6022b788ed268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 091/171] fix: ignore unbalanced Q in text extraction

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 3681f03..4e7c8db 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -388,7 +388,14 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                     case PdfOperator::Q:
                     {
                         ASSERT(!context.BlockOpen, "Text block must be not open");
-                        context.States.Pop();
+                        // NOTE: Don't restore a state saved outside of the current form
+                        unsigned baseCount = context.XObjectStateIndices.size() == 0
+                            ? 1 : context.XObjectStateIndices.back().TextStateIndex + 1;
+                        if (context.States.GetSize() <= baseCount)
+                            mm::LogMessage(PdfLogSeverity::Warning, "No saved graphics state to restore");
+                        else
+                            context.States.Pop();
+
                         break;
                     }
                     default:
-- 
2.43.0


From 1f63a92604a4ce5d511ac915be3c485e9ba17701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 092/171] fix: look up inherited keys iteratively and stop at
 circular parents

---
 src/pdfmm/base/PdfDictionary.cpp | 33 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 9ab1c23..cb71a42 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -149,27 +149,24 @@ PdfObject* PdfDictionary::findKey(const string_view& key) const
 
 PdfObject* PdfDictionary::findKeyParent(const string_view& key) const
 {
-    // NOTE: A null value is equivalent to an absent entry
-    PdfObject* obj = findKey(key);
-    if (obj == nullptr || obj->IsNull())
+    // Parents may be circular in broken documents
+    unordered_set<const PdfDictionary*> visited;
+    auto dict = this;
+    while (visited.insert(dict).second)
     {
-        PdfObject* parent = findKey("Parent");
-        if (parent == nullptr)
-        {
+        // NOTE: A null value is equivalent to an absent entry
+        PdfObject* obj = dict->findKey(key);
+        if (obj != nullptr && !obj->IsNull())
+            return obj;
+
+        PdfObject* parent = dict->findKey("Parent");
+        if (parent == nullptr || !parent->IsDictionary())
             return nullptr;
-        }
-        else
-        {
-            if (parent->IsDictionary())
-                return parent->GetDictionary().findKeyParent(key);
-            else
-                return nullptr;
-        }
-    }
-    else
-    {
-        return obj;
+
+        dict = &parent->GetDictionary();
     }
+
+    return nullptr;
 }
 
 bool PdfDictionary::HasKey(const string_view& key) const
-- 
2.43.0


From dcbcc2ab0fd757f51dbfc1f359987e9149dafb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 093/171] fix: check the size of image data before decoding it

---
 src/pdfmm/base/PdfImage.cpp      | 37 ++++++++++++++++++++++++++------
 src/pdfmm/base/PdfImage.h        |  2 +-
 src/pdfmm/private/ImageUtils.cpp |  8 ++++++-
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 138abe2..e843345 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -40,6 +40,7 @@ static void pngReadData(png_structp pngPtr, png_bytep data, png_size_t length);
 static void LoadFromPngContent(PdfImage& image, png_structp png, png_infop info);
 #endif // PDFMM_HAVE_PNG_LIB
 
+static void checkImageData(const charbuff& data, unsigned width, unsigned height, unsigned pixelSize);
 static void fetchPDFScanLineRGB(unsigned char* dstScanLine,
     unsigned width, const unsigned char* srcScanLine, PdfPixelFormat srcPixelFormat);
 
@@ -78,9 +79,11 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
         switch (GetColorSpace())
         {
             case PdfColorSpace::DeviceRGB:
+                checkImageData(imageData, m_Width, m_Height, 3);
                 utls::FetchImageRGB(stream, m_Width, m_Height, format, (const unsigned char*)imageData.data(), smaskData, scanLine);
                 break;
             case PdfColorSpace::DeviceGray:
+                checkImageData(imageData, m_Width, m_Height, 1);
                 utls::FetchImageGrayScale(stream, m_Width, m_Height, format, (const unsigned char*)imageData.data(), smaskData, scanLine);
                 break;
             default:
@@ -110,6 +113,10 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
 
                     jpeg_start_decompress(&ctx);
 
+                    // The scan line and the soft mask have the declared size
+                    if (ctx.output_width != m_Width || ctx.output_height != m_Height)
+                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The size of the JPEG image differs from the declared one");
+
                     unsigned rowBytes = (unsigned)(ctx.output_width * ctx.output_components);
 
                     // buffer will be deleted by jpeg_destroy_decompress
@@ -149,6 +156,8 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
                 auto decoder = fxcodec::FaxModule::CreateDecoder(
                     pdfium::span<const uint8_t>((const uint8_t *)imageData.data(), imageData.size()),
                     (int)m_Width, (int)m_Height, k, endOfLine, encodedByteAlign, blackIs1, columns, rows);
+                if (decoder == nullptr || decoder->GetWidth() < (int)m_Width)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Invalid CCITT fax image size");
 
                 utls::FetchImageBW(stream, m_Width, m_Height,
                     format, *decoder, smaskData, scanLine);
@@ -172,8 +181,15 @@ charbuff PdfImage::GetDecodedCopy(PdfPixelFormat format)
 PdfImage::PdfImage(PdfObject& obj)
     : PdfXObject(obj, PdfXObjectType::Image)
 {
-    m_Width = static_cast<unsigned>(this->GetDictionary().MustFindKey("Width").GetNumber());
-    m_Height = static_cast<unsigned>(this->GetDictionary().MustFindKey("Height").GetNumber());
+    int64_t width = this->GetDictionary().MustFindKey("Width").GetNumber();
+    int64_t height = this->GetDictionary().MustFindKey("Height").GetNumber();
+    // NOTE: The size in bytes of a row must be representable as well
+    constexpr int64_t maxSize = numeric_limits<int>::max() / 4;
+    if (width < 0 || width > maxSize || height < 0 || height > maxSize)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid image size");
+
+    m_Width = static_cast<unsigned>(width);
+    m_Height = static_cast<unsigned>(height);
 }
 
 charbuff PdfImage::initScanLine(PdfPixelFormat format, int rowSize, charbuff& smaskData) const
@@ -189,7 +205,10 @@ charbuff PdfImage::initScanLine(PdfPixelFormat format, int rowSize, charbuff& sm
             {
                 unique_ptr<const PdfImage> smask;
                 if (PdfXObject::TryCreateFromObject(*smaskObj, smask))
+                {
                     smask->GetObject().MustGetStream().CopyTo(smaskData);
+                    checkImageData(smaskData, m_Width, m_Height, 1);
+                }
             }
 
             defaultRowSize = 4 * m_Width;
@@ -1329,23 +1348,29 @@ unsigned PdfImage::GetHeight() const
     return m_Height;
 }
 
-unsigned PdfImage::getBufferSize(PdfPixelFormat format) const
+size_t PdfImage::getBufferSize(PdfPixelFormat format) const
 {
     switch (format)
     {
         case PdfPixelFormat::RGBA:
         case PdfPixelFormat::BGRA:
-            return 4 * m_Width * m_Height;
+            return (size_t)4 * m_Width * m_Height;
         case PdfPixelFormat::RGB24:
         case PdfPixelFormat::BGR24:
-            return 4 * ((3 * m_Width + 3) / 4) * m_Height;
+            return (size_t)4 * ((3 * m_Width + 3) / 4) * m_Height;
         case PdfPixelFormat::Grayscale:
-            return 4 * ((m_Width + 3) / 4) * m_Height;
+            return (size_t)4 * ((m_Width + 3) / 4) * m_Height;
         default:
             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
     }
 }
 
+void checkImageData(const charbuff& data, unsigned width, unsigned height, unsigned pixelSize)
+{
+    if (height != 0 && data.size() / height < (size_t)width * pixelSize)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image data is too short");
+}
+
 void fetchPDFScanLineRGB(unsigned char* dstScanLine, unsigned width, const unsigned char* srcScanLine, PdfPixelFormat srcPixelFormat)
 {
     switch (srcPixelFormat)
diff --git a/src/pdfmm/base/PdfImage.h b/src/pdfmm/base/PdfImage.h
index f4a5b78..67f06e1 100644
--- a/src/pdfmm/base/PdfImage.h
+++ b/src/pdfmm/base/PdfImage.h
@@ -170,7 +170,7 @@ private:
 
     charbuff initScanLine(PdfPixelFormat format, int rowSize, charbuff& smask) const;
 
-    unsigned getBufferSize(PdfPixelFormat format) const;
+    size_t getBufferSize(PdfPixelFormat format) const;
 
 #ifdef PDFMM_HAVE_JPEG_LIB
     void loadFromJpegInfo(jpeg_decompress_struct& ctx, PdfImageInfo& info);
diff --git a/src/pdfmm/private/ImageUtils.cpp b/src/pdfmm/private/ImageUtils.cpp
index b36ab2e..61ca641 100644
--- a/src/pdfmm/private/ImageUtils.cpp
+++ b/src/pdfmm/private/ImageUtils.cpp
@@ -60,7 +60,7 @@ void utls::FetchImageRGB(OutputStream& stream, unsigned width, unsigned heigth,
 void utls::FetchImageGrayScale(OutputStream& stream, unsigned width, unsigned heigth, PdfPixelFormat format,
     const unsigned char* imageData, const charbuff& smaskData, charbuff& scanLine)
 {
-    unsigned srcRowSize = width * 3;
+    unsigned srcRowSize = width;
     if (smaskData.size() == 0)
     {
         for (unsigned i = 0; i < heigth; i++)
@@ -90,6 +90,9 @@ void utls::FetchImageBW(OutputStream& stream, unsigned width, unsigned heigth, P
         for (unsigned i = 0; i < heigth; i++)
         {
             auto scanLineBW = decoder.GetScanline(i);
+            if (scanLineBW.size() < ((size_t)width + 7) / 8)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image data is too short");
+
             fetchScanLineBW((unsigned char*)scanLine.data(),
                 width, format, (const unsigned char*)scanLineBW.data());
             stream.Write(scanLine.data(), scanLine.size());
@@ -100,6 +103,9 @@ void utls::FetchImageBW(OutputStream& stream, unsigned width, unsigned heigth, P
         for (unsigned i = 0; i < heigth; i++)
         {
             auto scanLineBW = decoder.GetScanline(i);
+            if (scanLineBW.size() < ((size_t)width + 7) / 8)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image data is too short");
+
             fetchScanLineBW((unsigned char*)scanLine.data(),
                 width, format, scanLineBW.data(),
                 (const unsigned char*)smaskData.data() + i * width);
-- 
2.43.0


From a565b752dc941ead43950f5afa64a74c2bcf36a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 094/171] fix: out of range real numbers are not converted to
 integers

---
 src/pdfmm/base/PdfVariant.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index fcf62e2..d2d4e2d 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -539,9 +539,21 @@ bool PdfVariant::TryGetNumberLenient(int64_t& value) const
     }
 
     if (m_DataType == PdfDataType::Real)
-        value = static_cast<int64_t>(std::round(m_Data.Real));
+    {
+        // The value may be not representable
+        double rounded = std::round(m_Data.Real);
+        if (!(rounded >= -9223372036854775808.0 && rounded < 9223372036854775808.0))
+        {
+            value = 0;
+            return false;
+        }
+
+        value = static_cast<int64_t>(rounded);
+    }
     else
+    {
         value = m_Data.Number;
+    }
 
     return true;
 }
-- 
2.43.0


From 455c52b9e372e385a09358f111c181644e18cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 095/171] fix: the full name of a field with circular parents
 is finite

---
 src/pdfmm/base/PdfField.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 428a2d1..260f7ac 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -841,6 +841,8 @@ void PdfField::linkFieldObjectToParent(const shared_ptr<PdfField>& field, PdfFie
 
 void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname)
 {
+    // The parents may be circular in broken documents
+    utls::RecursionGuard guard;
     auto& dict = obj.GetDictionary();
     auto parent = dict.FindKey("Parent");
     if (parent != nullptr)
-- 
2.43.0


From 7f3cb600a2a55d8caef658814bd82ffe9cc2b6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 096/171] fix: tolerate missing font descriptors and dangling
 descendant fonts

---
 src/pdfmm/base/PdfFontFactory.cpp       | 2 +-
 src/pdfmm/base/PdfFontMetricsObject.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontFactory.cpp b/src/pdfmm/base/PdfFontFactory.cpp
index 3c4577c..d12b51e 100644
--- a/src/pdfmm/base/PdfFontFactory.cpp
+++ b/src/pdfmm/base/PdfFontFactory.cpp
@@ -102,7 +102,7 @@ bool PdfFont::TryCreateFromObject(PdfObject& obj, unique_ptr<PdfFont>& font)
         PdfObject* objDescriptor = nullptr;
         if (descendants.size() != 0)
         {
-            objFont = descendants.FindAt(0);
+            objFont = &descendants.MustFindAt(0);
             objDescriptor = objFont->GetDictionary().FindKey("FontDescriptor");
         }
 
diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index 75f7df3..a1057c4 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -69,6 +69,9 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         }
         else
         {
+            if (descriptor == nullptr)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoObject, "Missing font descriptor");
+
             if (m_FontName.length() == 0 && (obj = descriptor->GetDictionary().FindKey("FontName")) != nullptr)
                 m_FontName = obj->GetName().GetString();
 
-- 
2.43.0


From dd2611977b8ab20b8e64fb6016f17fa2d79d98df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 097/171] fix: tolerate odd values in font descriptors

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index a1057c4..775e7d3 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -18,6 +18,7 @@
 using namespace mm;
 using namespace std;
 
+static int toInt(double value, int defaultValue);
 static PdfFontStretch stretchFromString(const string_view& str);
 
 PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObject* descriptor) :
@@ -289,15 +290,15 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             if (stretchObj->TryGetName(name))
                 m_FontStretch = stretchFromString(name->GetString());
             else if (stretchObj->TryGetString(str))
-                m_FontStretch = stretchFromString(name->GetString());
+                m_FontStretch = stretchFromString(str->GetString());
             else
                 m_FontStretch = PdfFontStretch::Unknown;
         }
 
         // NOTE: Found a valid document with "/FontWeight 400.0" so just read the value as double
-        m_Weight = static_cast<int>(dict.FindKeyAs<double>("FontWeight", -1));
+        m_Weight = toInt(dict.FindKeyAs<double>("FontWeight", -1), -1);
         m_Flags = (PdfFontDescriptorFlags)dict.FindKeyAs<int64_t>("Flags", 0);
-        m_ItalicAngle = static_cast<int>(dict.FindKeyAs<double>("ItalicAngle", 0));
+        m_ItalicAngle = toInt(dict.FindKeyAs<double>("ItalicAngle", 0), 0);
         m_Ascent = dict.FindKeyAs<double>("Ascent", 0) * m_Matrix[3];
         m_Descent = dict.FindKeyAs<double>("Descent", 0) * m_Matrix[3];
         m_Leading = dict.FindKeyAs<double>("Leading", -1) * m_Matrix[3];
@@ -539,6 +540,13 @@ vector<double> PdfFontMetricsObject::getBBox(const PdfObject& obj)
     return ret;
 }
 
+// Convert a real number, which may be not representable
+int toInt(double value, int defaultValue)
+{
+    return value > numeric_limits<int>::min() && value < numeric_limits<int>::max()
+        ? static_cast<int>(value) : defaultValue;
+}
+
 PdfFontStretch stretchFromString(const string_view& str)
 {
     if (str == "UltraCondensed")
-- 
2.43.0


From 776b2982781ff16449c501572046883b56ed2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 098/171] fix: check the bounds of W arrays

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 52 ++++++++++++-------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index 775e7d3..bbf41f2 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -198,41 +198,37 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         {
             // "W" array format is described in Pdf 32000:2008 "9.7.4.3
             // Glyph Metrics in CIDFonts"
-            PdfArray widthsArr = widths->GetArray();
+            // NOTE: CIDs are limited to 65535
+            constexpr int64_t maxCID = 0xFFFF;
+            auto& widthsArr = widths->GetArray();
             unsigned pos = 0;
             while (pos < widthsArr.GetSize())
             {
-                unsigned start = (unsigned)widthsArr[pos++].GetNumberLenient();
-                PdfObject* second = &widthsArr[pos];
-                if (second->IsReference())
-                {
-                    // second do not have an associated owner; use the one in pw
-                    second = &widths->GetDocument()->GetObjects().MustGetObject(second->GetReference());
-                    PDFMM_ASSERT(!second->IsNull());
-                }
-                if (second->IsArray())
+                int64_t start = widthsArr.MustFindAt(pos++).GetNumberLenient();
+                auto& second = widthsArr.MustFindAt(pos++);
+                int64_t end;
+                const PdfArray* arr = nullptr;
+                if (second.TryGetArray(arr))
+                    end = start <= maxCID ? start + (int64_t)arr->GetSize() - 1 : start;
+                else
+                    end = second.GetNumberLenient();
+
+                if (start < 0 || end > maxCID)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid CID in /W array");
+
+                if (end >= (int64_t)m_Widths.size())
+                    m_Widths.resize((size_t)end + 1, m_DefaultWidth);
+
+                if (arr != nullptr)
                 {
-                    PdfArray arr = second->GetArray();
-                    pos++;
-                    unsigned length = start + arr.GetSize();
-                    PDFMM_ASSERT(length >= start);
-                    if (length > m_Widths.size())
-                        m_Widths.resize(length, m_DefaultWidth);
-
-                    for (unsigned i = 0; i < arr.GetSize(); i++)
-                        m_Widths[start + i] = arr[i].GetReal() * m_Matrix[0];
+                    for (unsigned i = 0; i < arr->GetSize(); i++)
+                        m_Widths[(size_t)start + i] = arr->MustFindAt(i).GetReal() * m_Matrix[0];
                 }
                 else
                 {
-                    unsigned end = (unsigned)widthsArr[pos++].GetNumberLenient();
-                    unsigned length = end + 1;
-                    PDFMM_ASSERT(length >= start);
-                    if (length > m_Widths.size())
-                        m_Widths.resize(length, m_DefaultWidth);
-
-                    double width = widthsArr[pos++].GetReal() * m_Matrix[0];
-                    for (unsigned i = start; i <= end; i++)
-                        m_Widths[i] = width;
+                    double width = widthsArr.MustFindAt(pos++).GetReal() * m_Matrix[0];
+                    for (int64_t i = start; i <= end; i++)
+                        m_Widths[(size_t)i] = width;
                 }
             }
         }
-- 
2.43.0


From 8c44c2a98575a1039ef30ecdb2c5dc880efec36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 099/171] fix: ignore codes out of range in Differences

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 6533d83..2dd08f7 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2539,8 +2539,12 @@ unique_ptr<PdfDifferenceEncoding> PdfDifferenceEncoding::Create(
             }
             else if (diff.IsName())
             {
-                difference.AddDifference(static_cast<unsigned>(curCode), diff.GetName(), explicitNames);
-                curCode++;
+                // Ignore codes that are out of range
+                if (curCode >= 0 && curCode <= 0xFF)
+                {
+                    difference.AddDifference(static_cast<unsigned char>(curCode), diff.GetName(), explicitNames);
+                    curCode++;
+                }
             }
         }
     }
-- 
2.43.0


From 834433705f4f35350bdd658dbaf2f4a4d0c4a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 100/171] fix: check the Count of the pages

---
 src/pdfmm/base/PdfPageCollection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPageCollection.cpp b/src/pdfmm/base/PdfPageCollection.cpp
index 78cd0f3..7402dfa 100644
--- a/src/pdfmm/base/PdfPageCollection.cpp
+++ b/src/pdfmm/base/PdfPageCollection.cpp
@@ -540,14 +540,14 @@ unsigned PdfPageCollection::changePagesCount(PdfObject& pageObj, int delta)
 {
     // Increment or decrement inPagesDict's Count by inDelta, and return the new count.
     // Simply return the current count if inDelta is 0.
-    int cnt = (int)getChildCount(pageObj);
+    int64_t cnt = getChildCount(pageObj);
     if (delta != 0)
     {
         cnt += delta;
-        pageObj.GetDictionary().AddKey("Count", PdfVariant(static_cast<int64_t>(cnt)));
+        pageObj.GetDictionary().AddKey("Count", PdfVariant(cnt));
     }
 
-    return cnt;
+    return (unsigned)cnt;
 }
 
 bool PdfPageCollection::isEmptyPageNode(PdfObject& pageNode)
-- 
2.43.0


From b6e6eae3bbdf8f10f8c123236c75e17e9a36b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 101/171] fix: check codes and ranges of CMaps

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 33 +++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 11d39be..9e1caff 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -29,6 +29,7 @@ static void readNextVariantSequence(PdfPostScriptTokenizer& tokenizer, InputStre
     PdfVariant& variant, const string_view& endSequenceKeyword, bool& endOfSequence);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits, unsigned char& codeSize);
+static unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi);
 static vector<char32_t> handleNameMapping(const PdfName& name);
 static vector<char32_t> handleStringMapping(const PdfString& str);
 static void handleRangeMapping(PdfCharCodeMap& map,
@@ -149,7 +150,7 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         uint32_t srcCodeLo = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
                         uint32_t srcCodeHi = getCodeFromVariant(*var, limits);
-                        unsigned rangeSize = srcCodeHi - srcCodeLo + 1;
+                        unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         tokenizer.ReadNextVariant(device, *var);
                         if (var->IsArray())
                         {
@@ -231,7 +232,7 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, limits);
 
-                        unsigned rangeSize = srcCodeHi - srcCodeLo + 1;
+                        unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         vector<char32_t> mappedCodes;
                         for (unsigned i = 0; i < rangeSize; i++)
                         {
@@ -287,8 +288,15 @@ vector<char32_t> handleStringMapping(const PdfString& str)
 {
     auto& rawdata = str.GetRawData();
     string utf8;
-    utls::ReadUtf16BEString(rawdata, utf8);
-    return handleUtf8String(utf8);
+    try
+    {
+        utls::ReadUtf16BEString(rawdata, utf8);
+        return handleUtf8String(utf8);
+    }
+    catch (const exception&)
+    {
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "CMap has an invalid UTF-16 string");
+    }
 }
 
 // Handle a range in begingbfrage "srcCodeLo srcCodeHi dstCodeLo" clause
@@ -329,6 +337,9 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     if (var.IsNumber())
     {
         int64_t num = var.GetNumber();
+        if (num < 0 || num > numeric_limits<uint32_t>::max())
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "CMap code is out of range");
+
         uint32_t ret = (uint32_t)num;
         if (num == 0)
         {
@@ -351,10 +362,13 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     uint32_t ret = 0;
     auto& rawstr = str.GetRawData();
     unsigned len = (unsigned)rawstr.length();
+    if (len == 0 || len > 4)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "CMap codes must be 1 to 4 bytes long");
+
     for (unsigned i = 0; i < len; i++)
     {
         uint8_t code = (uint8_t)rawstr[len - 1 - i];
-        ret += code << i * 8;
+        ret += (uint32_t)code << i * 8;
     }
 
     codeSize = len;
@@ -386,6 +400,15 @@ uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits)
     return getCodeFromVariant(var, limits, codeSize);
 }
 
+unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi)
+{
+    // No sensible range maps more than all the CIDs
+    if (srcCodeHi < srcCodeLo || srcCodeHi - srcCodeLo > 0xFFFF)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "Invalid range of codes in CMap");
+
+    return srcCodeHi - srcCodeLo + 1;
+}
+
 vector<char32_t> handleNameMapping(const PdfName& name)
 {
     return handleUtf8String(name.GetString());
-- 
2.43.0


From 0c779bd9e6c5ab0629cd2b49c13b5a36260fbf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 102/171] fix: buttons and signatures without widget do not
 dereference it

---
 src/pdfmm/base/PdfButton.cpp     |  8 +++++---
 src/pdfmm/base/PdfPushButton.cpp | 14 ++++++++------
 src/pdfmm/base/PdfSignature.cpp  |  4 ++--
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfButton.cpp b/src/pdfmm/base/PdfButton.cpp
index 37cf698..3b86be3 100644
--- a/src/pdfmm/base/PdfButton.cpp
+++ b/src/pdfmm/base/PdfButton.cpp
@@ -48,11 +48,11 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetCaption(nullptr);
     }
@@ -60,7 +60,9 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfButton::GetCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    // NOTE: Fields with more widgets don't have their own
+    auto widget = GetWidget();
+    auto apChars = widget == nullptr ? nullptr : widget->GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
diff --git a/src/pdfmm/base/PdfPushButton.cpp b/src/pdfmm/base/PdfPushButton.cpp
index 987c1de..e55b800 100644
--- a/src/pdfmm/base/PdfPushButton.cpp
+++ b/src/pdfmm/base/PdfPushButton.cpp
@@ -39,11 +39,11 @@ void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetRolloverCaption(nullptr);
     }
@@ -51,7 +51,8 @@ void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&>  PdfPushButton::GetRolloverCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto widget = GetWidget();
+    auto apChars = widget == nullptr ? nullptr : widget->GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
@@ -62,11 +63,11 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetAlternateCaption(nullptr);
     }
@@ -75,7 +76,8 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfPushButton::GetAlternateCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto widget = GetWidget();
+    auto apChars = widget == nullptr ? nullptr : widget->GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
diff --git a/src/pdfmm/base/PdfSignature.cpp b/src/pdfmm/base/PdfSignature.cpp
index c0a25a1..0d36d43 100644
--- a/src/pdfmm/base/PdfSignature.cpp
+++ b/src/pdfmm/base/PdfSignature.cpp
@@ -42,8 +42,8 @@ PdfSignature::PdfSignature(PdfObject& obj, PdfAcroForm* acroform) :
 
 void PdfSignature::SetAppearanceStream(PdfXObjectForm& obj, PdfAppearanceType appearance, const PdfName& state)
 {
-    GetWidget()->SetAppearanceStream(obj, appearance, state);
-    (void)this->GetWidget()->GetOrCreateAppearanceCharacteristics();
+    MustGetWidget().SetAppearanceStream(obj, appearance, state);
+    (void)this->MustGetWidget().GetOrCreateAppearanceCharacteristics();
 }
 
 void PdfSignature::init(PdfAcroForm& acroForm)
-- 
2.43.0


From c97ef54c0e791a02225a6df295709c2a7358477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 103/171] fix: a CMap range with empty destination is ignored

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 9e1caff..0290d6a 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -304,6 +304,9 @@ void handleRangeMapping(PdfCharCodeMap& map,
     uint32_t srcCodeLo, const vector<char32_t>& dstCodeLo,
     unsigned char codeSize, unsigned rangeSize)
 {
+    if (dstCodeLo.size() == 0)
+        return;
+
     auto it = dstCodeLo.begin();
     auto end = dstCodeLo.end();
     PDFMM_INVARIANT(it != end);
-- 
2.43.0


From 1878356e6eb38756af16b3ac54b4b908f36cdab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 104/171] fix: limit the nesting of dictionaries

---
 src/pdfmm/base/PdfTokenizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index d9f7ca5..27204d9 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -420,6 +420,8 @@ bool PdfTokenizer::tryReadDataType(InputStreamDevice& device, PdfLiteralDataType
 
 void PdfTokenizer::ReadDictionary(InputStreamDevice& device, PdfVariant& variant, const PdfStatefulEncrypt& encrypt)
 {
+    // NOTE: Values of dictionaries don't pass by TryReadNextVariant
+    utls::RecursionGuard guard;
     PdfVariant val;
     PdfName key;
     PdfTokenType tokenType;
-- 
2.43.0


From 3aa1b0144e0f83a12a4b4032767dcd26e6a5481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 105/171] fix: a failed lookup of a CID does not consume the
 code

---
 src/pdfmm/base/PdfEncodingMap.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index f707770..ed53aa4 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -113,7 +113,8 @@ bool PdfEncodingMap::TryGetNextCID(string_view::iterator& it,
     if (GetType() == PdfEncodingMapType::CMap)
     {
         vector<char32_t> codePoints;
-        bool success = tryGetNextCodePoints(it, end, cid.Unit, codePoints);
+        string_view::iterator curr = it;
+        bool success = tryGetNextCodePoints(curr, end, cid.Unit, codePoints);
         if (!success || codePoints.size() != 1)
         {
             // Return false on missing lookup or malformed multiple code points found
@@ -121,6 +122,7 @@ bool PdfEncodingMap::TryGetNextCID(string_view::iterator& it,
             return false;
         }
 
+        it = curr;
         // char32_t is also unsigned
         cid.Id = (unsigned)codePoints[0];
         return true;
-- 
2.43.0


From 433adbf660c3e8e4726ec198240652773c96ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:06 +0000
Subject: [PATCH 106/171] fix: include what the parent lookup uses

---
 src/pdfmm/base/PdfDictionary.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index cb71a42..496c77b 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -7,6 +7,9 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfDictionary.h"
 
+#include <unordered_set>
+
+
 #include "PdfOutputDevice.h"
 
 using namespace std;
-- 
2.43.0


From efe1ca68450eefdb05a8d78a6a11ebdd8e3dc1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:12 +0000
Subject: [PATCH 107/171] fix: check the widths of cross-reference stream
 fields before the length of the data

---
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 21 +++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index 4deebb2..3c4eee6 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -114,6 +114,18 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         }
     }
 
+    for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
+    {
+        if (wArray[i] > W_MAX_BYTES)
+        {
+            mm::LogMessage(PdfLogSeverity::Error,
+                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
+                wArray[i], W_MAX_BYTES);
+
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
+        }
+    }
+
     const size_t entryLen = static_cast<size_t>(wArray[0] + wArray[1] + wArray[2]);
 
     charbuff buffer;
@@ -176,15 +188,6 @@ void PdfXRefStreamParserObject::readXRefStreamEntry(PdfXRefEntry& entry, char* b
     uint64_t entryRaw[W_ARRAY_SIZE];
     for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
     {
-        if (wArray[i] > W_MAX_BYTES)
-        {
-            mm::LogMessage(PdfLogSeverity::Error,
-                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
-                wArray[i], W_MAX_BYTES);
-
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
-        }
-
         entryRaw[i] = 0;
         for (int64_t z = W_MAX_BYTES - wArray[i]; z < W_MAX_BYTES; z++)
         {
-- 
2.43.0


From 4bf239494b8ec4613182146810891ce947ffeb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:16 +0000
Subject: [PATCH 108/171] fix: compare the size of the codes when looking up
 character codes

---
 src/pdfmm/base/PdfEncodingCommon.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncodingCommon.cpp b/src/pdfmm/base/PdfEncodingCommon.cpp
index c19a8d4..e98576e 100644
--- a/src/pdfmm/base/PdfEncodingCommon.cpp
+++ b/src/pdfmm/base/PdfEncodingCommon.cpp
@@ -27,7 +27,11 @@ PdfCharCode::PdfCharCode(unsigned code, unsigned char codeSpaceSize)
 
 bool PdfCharCode::operator<(const PdfCharCode& rhs) const
 {
-    return Code < rhs.Code;
+    // Codes of different sizes are different codes
+    if (Code != rhs.Code)
+        return Code < rhs.Code;
+
+    return CodeSpaceSize < rhs.CodeSpaceSize;
 }
 
 bool PdfCharCode::operator==(const PdfCharCode& rhs) const
-- 
2.43.0


From b5c11eebb2560d2ce5425c40de8516ea38f656a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:16 +0000
Subject: [PATCH 109/171] fix: the prefix of a ligature has no code by itself

---
 src/pdfmm/base/PdfCharCodeMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCharCodeMap.cpp b/src/pdfmm/base/PdfCharCodeMap.cpp
index cd65fd5..055d6bc 100644
--- a/src/pdfmm/base/PdfCharCodeMap.cpp
+++ b/src/pdfmm/base/PdfCharCodeMap.cpp
@@ -128,7 +128,8 @@ bool PdfCharCodeMap::TryGetCharCode(codepoint codePoint, PdfCharCode& code) cons
 {
     const_cast<PdfCharCodeMap&>(*this).reviseCPMap();
     auto node = findNode(m_codePointMapHead, codePoint);
-    if (node == nullptr)
+    // NOTE: The node may be just the prefix of a ligature
+    if (node == nullptr || node->CodeUnit.CodeSpaceSize == 0)
     {
         code = { };
         return false;
-- 
2.43.0


From 4a5e5496d5155fce1c80139c0d4135ea878447b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:16 +0000
Subject: [PATCH 110/171] fix: an unsuccessful search for a code doesn't
 consume characters

---
 src/pdfmm/base/PdfCharCodeMap.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfCharCodeMap.cpp b/src/pdfmm/base/PdfCharCodeMap.cpp
index 055d6bc..bcda965 100644
--- a/src/pdfmm/base/PdfCharCodeMap.cpp
+++ b/src/pdfmm/base/PdfCharCodeMap.cpp
@@ -163,20 +163,21 @@ bool PdfCharCodeMap::tryFindNextCharacterId(const CPMapNode* node, string_view::
     const string_view::iterator& end, PdfCharCode& codeUnit)
 {
     PDFMM_INVARIANT(it != end);
-    string_view::iterator curr;
-    codepoint codePoint = (codepoint)utf8::next(it, end);
+    // Don't consume the character if the search is unsuccessful
+    string_view::iterator curr = it;
+    codepoint codePoint = (codepoint)utf8::next(curr, end);
     node = findNode(node, codePoint);
     if (node == nullptr)
         goto NotFound;
 
-    if (it != end)
+    if (curr != end)
     {
         // Try to find ligatures, save a temporary iterator
         // in case the search in unsuccessful
-        curr = it;
-        if (tryFindNextCharacterId(node->Ligatures, curr, end, codeUnit))
+        auto ligatureIt = curr;
+        if (tryFindNextCharacterId(node->Ligatures, ligatureIt, end, codeUnit))
         {
-            it = curr;
+            it = ligatureIt;
             return true;
         }
     }
@@ -188,6 +189,7 @@ bool PdfCharCodeMap::tryFindNextCharacterId(const CPMapNode* node, string_view::
     }
     else
     {
+        it = curr;
         codeUnit = node->CodeUnit;
         return true;
     }
-- 
2.43.0


From 97349f71b8aee18d50df884675ce385d73896004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:16 +0000
Subject: [PATCH 111/171] fix: read ranges of bfrange with more than one
 character in the target

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 0290d6a..f59a1d9 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -307,20 +307,9 @@ void handleRangeMapping(PdfCharCodeMap& map,
     if (dstCodeLo.size() == 0)
         return;
 
-    auto it = dstCodeLo.begin();
-    auto end = dstCodeLo.end();
-    PDFMM_INVARIANT(it != end);
     char32_t back = dstCodeLo.back();
-    vector<char32_t> newdstbase;
     // Compute a destination string that has all code points except the last one
-    if (dstCodeLo.size() != 1)
-    {
-        do
-        {
-            newdstbase.push_back(*it);
-            it++;
-        } while (it != end);
-    }
+    vector<char32_t> newdstbase(dstCodeLo.begin(), dstCodeLo.end() - 1);
 
     // Compute new destination string with last chracter/code point incremented by one
     vector<char32_t> newdst;
-- 
2.43.0


From 5785264f1abad2306f77237781490e188acf99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:16 +0000
Subject: [PATCH 112/171] fix: the CIDs of a CMap don't change the sizes of the
 codes

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index f59a1d9..b2c33eb 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -27,6 +27,7 @@ struct CodeLimits
 
 static void readNextVariantSequence(PdfPostScriptTokenizer& tokenizer, InputStreamDevice& device,
     PdfVariant& variant, const string_view& endSequenceKeyword, bool& endOfSequence);
+static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSize);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits, unsigned char& codeSize);
 static unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi);
@@ -197,7 +198,8 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         if (var->IsNumber())
                         {
-                            char32_t dstCode = (char32_t)getCodeFromVariant(*var, limits);
+                            unsigned char dstSize;
+                            char32_t dstCode = (char32_t)getCodeFromVariant(*var, dstSize);
                             mappedCodes.clear();
                             mappedCodes.push_back(dstCode);
                         }
@@ -230,7 +232,9 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         uint32_t srcCodeHi = getCodeFromVariant(*var, limits);
                         tokenizer.ReadNextVariant(device, *var);
-                        char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, limits);
+                        // NOTE: CIDs don't affect the limits of the codes
+                        unsigned char cidSize;
+                        char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, cidSize);
 
                         unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         vector<char32_t> mappedCodes;
@@ -256,7 +260,8 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         unsigned char codeSize;
                         uint32_t srcCode = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
-                        char32_t dstCode = (char32_t)getCodeFromVariant(*var, limits);
+                        unsigned char dstSize;
+                            char32_t dstCode = (char32_t)getCodeFromVariant(*var, dstSize);
                         mappedCodes.clear();
                         mappedCodes.push_back(dstCode);
                         pushMapping(ret, { srcCode, codeSize }, mappedCodes);
-- 
2.43.0


From abe733657ef53d215c6552fc44320ead4441952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:16 +0000
Subject: [PATCH 113/171] fix: export also the last code of one byte maps

---
 src/pdfmm/base/PdfEncodingMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index ed53aa4..4434c97 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -421,7 +421,7 @@ void PdfEncodingMapOneByte::AppendToUnicodeEntries(OutputStream& stream, charbuf
     stream.Write(temp);
     stream.Write(" [\n");
     u16string u16tmp;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         if (!TryGetCodePoints(PdfCharCode(code), codePoints))
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Unable to find character code");
@@ -448,7 +448,7 @@ void PdfEncodingMapOneByte::AppendCIDMappingEntries(OutputStream& stream, const
     };
 
     vector<Mapping> mappings;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         PdfCharCode charCode(code);
         if (!TryGetCodePoints(charCode, codePoints))
-- 
2.43.0


From f1d0c7a009f6fb3878e46e180a957919c01bd3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:16 +0000
Subject: [PATCH 114/171] fix: read uniXXXX and uXXXXXX glyph names

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 31 ++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 2dd08f7..9a39c35 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2660,16 +2660,24 @@ char32_t PdfDifferenceEncoding::NameToCodePoint(const string_view& name)
     }
 
     // if we get here, then we might be looking up an undefined codepoint
-    // so try looking for our special format..
-    if (name.substr(0, 3) == "uni")
-    {
-        auto code = name.substr(3);
-        // force base16 IF it's 4 characters line
-        unsigned val;
-        if (std::from_chars(code.data(), name.data() + name.length(), val, code.length() == 4 ? 16 : 10).ec != std::errc())
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoNumber, "Could not read number");
+    // so try looking for the "uniXXXX" and "uXXXX[XX]" formats of the
+    // Adobe Glyph List specification. Other names have no known code point
+    string_view code;
+    if (name.length() == 7 && name.substr(0, 3) == "uni")
+        code = name.substr(3);
+    else if (name.length() >= 5 && name.length() <= 7 && name[0] == 'u')
+        code = name.substr(1);
 
-        return (char32_t)val;
+    unsigned val;
+    if (!code.empty())
+    {
+        auto end = code.data() + code.length();
+        auto result = std::from_chars(code.data(), end, val, 16);
+        if (result.ec == std::errc() && result.ptr == end
+            && utf8::internal::is_code_point_valid(val))
+        {
+            return (char32_t)val;
+        }
     }
 
     return U'\0';
@@ -2693,6 +2701,9 @@ PdfName PdfDifferenceEncoding::CodePointToName(char32_t inCodePoint)
     // if we get here, then we are looking up an undefined codepoint
     // so we'll just give it an arbitrary name..
     string buffer;
-    utls::FormatTo(buffer, "uni{:04x}", (unsigned)inCodePoint);
+    if (inCodePoint > 0xFFFF)
+        utls::FormatTo(buffer, "u{:X}", (unsigned)inCodePoint);
+    else
+        utls::FormatTo(buffer, "uni{:04X}", (unsigned)inCodePoint);
     return PdfName(buffer);
 }
-- 
2.43.0


From 7eafe61c46e378fd7d78f6bd204ffce878f7a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:16 +0000
Subject: [PATCH 115/171] fix: write encoding and widths of fonts that are not
 embedded

---
 src/pdfmm/base/PdfFont.cpp       | 23 ++++++++++++++++++-----
 src/pdfmm/base/PdfFont.h         |  6 ++++++
 src/pdfmm/base/PdfFontCID.cpp    |  7 ++++++-
 src/pdfmm/base/PdfFontCID.h      |  1 +
 src/pdfmm/base/PdfFontSimple.cpp | 15 +++++++++++++--
 src/pdfmm/base/PdfFontSimple.h   |  2 ++
 6 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index cbbb538..cf3af24 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -129,6 +129,7 @@ bool PdfFont::TryGetSubstituteFont(PdfFontCreateFlags initFlags, PdfFont*& subst
 void PdfFont::initBase(const PdfEncoding& encoding)
 {
     m_IsEmbedded = false;
+    m_IsFinished = false;
     m_EmbeddingEnabled = false;
     m_SubsettingEnabled = false;
     m_cidToGidMap = m_Metrics->GetCIDToGIDMap();
@@ -217,21 +218,28 @@ void PdfFont::InitImported(bool wantEmbed, bool wantSubset)
     m_Name = fontName;
     initImported();
 
-    if (m_EmbeddingEnabled && !m_SubsettingEnabled
-        && !m_Encoding->IsDynamicEncoding())
+    if (!m_SubsettingEnabled && !m_Encoding->IsDynamicEncoding())
     {
         // Perform embedded immediately if subsetting is
         // not enabled and there's no dynamic encoding
-        embedFont();
-        m_IsEmbedded = true;
+        EmbedFont();
     }
 }
 
 void PdfFont::EmbedFont()
 {
-    if (m_IsEmbedded || !m_EmbeddingEnabled)
+    if (m_IsEmbedded || m_IsFinished)
         return;
 
+    if (!m_EmbeddingEnabled)
+    {
+        if (!IsObjectLoaded())
+            finishNotEmbedded();
+
+        m_IsFinished = true;
+        return;
+    }
+
     if (m_SubsettingEnabled)
         embedFontSubset();
     else
@@ -245,6 +253,11 @@ void PdfFont::embedFont()
     PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Embedding not implemented for this font type");
 }
 
+void PdfFont::finishNotEmbedded()
+{
+    // Do nothing
+}
+
 void PdfFont::embedFontSubset()
 {
     PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Subsetting not implemented for this font type");
diff --git a/src/pdfmm/base/PdfFont.h b/src/pdfmm/base/PdfFont.h
index cbb7fa0..06d619e 100644
--- a/src/pdfmm/base/PdfFont.h
+++ b/src/pdfmm/base/PdfFont.h
@@ -367,6 +367,11 @@ protected:
 
     virtual void embedFont();
 
+    /** Write the entries that the font needs also when
+     * the font program is not embedded, eg. the encoding and the widths
+     */
+    virtual void finishNotEmbedded();
+
     virtual void embedFontSubset();
 
 private:
@@ -425,6 +430,7 @@ private:
     std::string m_SubsetPrefix;
     bool m_EmbeddingEnabled;
     bool m_IsEmbedded;
+    bool m_IsFinished;
     bool m_SubsettingEnabled;
     UsedGIDsMap m_SubsetGIDs;
     PdfCIDToGIDMapConstPtr m_cidToGidMap;
diff --git a/src/pdfmm/base/PdfFontCID.cpp b/src/pdfmm/base/PdfFontCID.cpp
index 58f6422..527141a 100644
--- a/src/pdfmm/base/PdfFontCID.cpp
+++ b/src/pdfmm/base/PdfFontCID.cpp
@@ -101,9 +101,14 @@ void PdfFontCID::initImported()
 void PdfFontCID::embedFont()
 {
     PDFMM_ASSERT(m_descriptor != nullptr);
+    finishNotEmbedded();
+    EmbedFontFile(*m_descriptor);
+}
+
+void PdfFontCID::finishNotEmbedded()
+{
     createWidths(m_descendantFont->GetDictionary(), getIdentityCIDToGIDMap());
     m_Encoding->ExportToFont(*this);
-    EmbedFontFile(*m_descriptor);
 }
 
 PdfObject* PdfFontCID::getDescendantFontObject()
diff --git a/src/pdfmm/base/PdfFontCID.h b/src/pdfmm/base/PdfFontCID.h
index ac96b0b..0404b66 100644
--- a/src/pdfmm/base/PdfFontCID.h
+++ b/src/pdfmm/base/PdfFontCID.h
@@ -26,6 +26,7 @@ public:
 
 protected:
     void embedFont() override;
+    void finishNotEmbedded() override;
     PdfObject* getDescendantFontObject() override;
     void createWidths(PdfDictionary& fontDict, const CIDToGIDMap& glyphWidths);
     static CIDToGIDMap getCIDToGIDMapSubset(const UsedGIDsMap& usedGIDs);
diff --git a/src/pdfmm/base/PdfFontSimple.cpp b/src/pdfmm/base/PdfFontSimple.cpp
index 868328f..99c9086 100644
--- a/src/pdfmm/base/PdfFontSimple.cpp
+++ b/src/pdfmm/base/PdfFontSimple.cpp
@@ -90,6 +90,19 @@ void PdfFontSimple::Init()
 void PdfFontSimple::embedFont()
 {
     PDFMM_ASSERT(m_Descriptor != nullptr);
+    createWidths();
+    EmbedFontFile(*m_Descriptor);
+}
+
+void PdfFontSimple::finishNotEmbedded()
+{
+    // NOTE: The widths of the standard 14 fonts are known to the readers
+    if (m_Descriptor != nullptr)
+        createWidths();
+}
+
+void PdfFontSimple::createWidths()
+{
     this->GetObject().GetDictionary().AddKey("FirstChar", PdfVariant(static_cast<int64_t>(m_Encoding->GetFirstChar().Code)));
     this->GetObject().GetDictionary().AddKey("LastChar", PdfVariant(static_cast<int64_t>(m_Encoding->GetLastChar().Code)));
 
@@ -107,8 +120,6 @@ void PdfFontSimple::embedFont()
         GetBoundingBox(arr);
         GetObject().GetDictionary().AddKey("FontBBox", std::move(arr));
     }
-
-    EmbedFontFile(*m_Descriptor);
 }
 
 void PdfFontSimple::initImported()
diff --git a/src/pdfmm/base/PdfFontSimple.h b/src/pdfmm/base/PdfFontSimple.h
index 1368bd3..f32a722 100644
--- a/src/pdfmm/base/PdfFontSimple.h
+++ b/src/pdfmm/base/PdfFontSimple.h
@@ -39,6 +39,8 @@ protected:
     void Init();
 
     void embedFont() override final;
+    void finishNotEmbedded() override final;
+    void createWidths();
 
     void initImported() override;
 
-- 
2.43.0


From 452c9dbce2bf00e2431a842e7d2332d14787a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 116/171] fix: PdfFont::GetStringLength of a text was always
 zero

---
 src/pdfmm/base/PdfFont.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index cf3af24..38018ea 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -752,7 +752,6 @@ bool PdfFont::tryConvertToGIDs(const std::string_view& utf8Str, PdfGlyphAccess a
     {
         auto it = utf8Str.begin();
         auto end = utf8Str.end();
-        vector<unsigned> gids;
         while (it != end)
         {
             char32_t cp = utf8::next(it, end);
-- 
2.43.0


From 0feb30eb5521f222771da0f6a20ed0cbc73ee2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 117/171] fix: the Widths of standard 14 fonts

---
 src/pdfmm/base/PdfFontMetricsStandard14.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfFontMetricsStandard14.cpp b/src/pdfmm/base/PdfFontMetricsStandard14.cpp
index cb9ffd4..490f7f1 100644
--- a/src/pdfmm/base/PdfFontMetricsStandard14.cpp
+++ b/src/pdfmm/base/PdfFontMetricsStandard14.cpp
@@ -59,9 +59,10 @@ unique_ptr<PdfFontMetricsStandard14> PdfFontMetricsStandard14::create(
         if (widthsObj != nullptr)
         {
             auto& arrWidths = widthsObj->GetArray();
-            parsedWidths.reset(new vector<double>(arrWidths.size()));
+            parsedWidths.reset(new vector<double>());
+            parsedWidths->reserve(arrWidths.size());
             for (auto& obj : arrWidths)
-                parsedWidths->push_back(obj.GetReal());
+                parsedWidths->push_back(obj.GetReal() / 1000.0); // Convert to PDF units
         }
     }
 
-- 
2.43.0


From aa5d38f1ff773cbb434ac373a55f9891c0e39ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 118/171] fix: widths of loaded standard 14 fonts

---
 src/pdfmm/base/PdfFontObject.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfFontObject.cpp b/src/pdfmm/base/PdfFontObject.cpp
index f4dfa9f..86c758f 100644
--- a/src/pdfmm/base/PdfFontObject.cpp
+++ b/src/pdfmm/base/PdfFontObject.cpp
@@ -13,7 +13,6 @@ using namespace mm;
 
 // All Standard14 fonts have glyphs that start with a
 // white space (code 0x20, or 32)
-static constexpr unsigned DEFAULT_STD14_FIRSTCHAR = 32;
 
 PdfFontObject::PdfFontObject(PdfObject& obj, const PdfFontMetricsConstPtr& metrics,
         const PdfEncoding& encoding) :
@@ -36,7 +35,14 @@ bool PdfFontObject::tryMapCIDToGID(unsigned cid, unsigned& gid) const
 {
     if (m_Metrics->IsStandard14FontMetrics() && !m_Encoding->HasParsedLimits())
     {
-        gid = cid - DEFAULT_STD14_FIRSTCHAR;
+        // The metrics of the standard 14 fonts are
+        // known by the code points of the characters
+        char32_t codePoint = m_Encoding->GetCodePoint(cid);
+        if (codePoint == U'\0' || !m_Metrics->TryGetGID(codePoint, gid))
+        {
+            gid = 0;
+            return false;
+        }
     }
     else
     {
-- 
2.43.0


From 88327daf1052648b6e0625353ad56d98b66b839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:33 +0000
Subject: [PATCH 119/171] fix: fonts with a single character

---
 src/pdfmm/base/PdfEncoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncoding.cpp b/src/pdfmm/base/PdfEncoding.cpp
index dab5a23..439f808 100644
--- a/src/pdfmm/base/PdfEncoding.cpp
+++ b/src/pdfmm/base/PdfEncoding.cpp
@@ -51,7 +51,7 @@ PdfEncoding::PdfEncoding(const PdfObject& fontObj, const PdfEncodingMapConstPtr&
     if (lastCharObj != nullptr)
         m_ParsedLimits.LastChar = PdfCharCode(static_cast<unsigned>(lastCharObj->GetNumber()));
 
-    if (m_ParsedLimits.LastChar.Code > m_ParsedLimits.FirstChar.Code)
+    if (m_ParsedLimits.LastChar.Code >= m_ParsedLimits.FirstChar.Code)
     {
         // If found valid /FirstChar and /LastChar, valorize
         //  also the code size limits
-- 
2.43.0


From 558873346d9c87a01bd759bcdf03f83d8e0a4178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:13 +0000
Subject: [PATCH 120/171] fix: the scale of MissingWidth

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index bbf41f2..42b70e4 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -113,7 +113,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
                 }
             }
 
-            m_DefaultWidth = descriptor->GetDictionary().FindKeyAs<double>("MissingWidth", 0);
+            m_DefaultWidth = descriptor->GetDictionary().FindKeyAs<double>("MissingWidth", 0) * m_Matrix[0];
         }
 
         // Type3 fonts have a custom /FontMatrix
-- 
2.43.0


From ac9aabd9d0b85c59cbed6af242675830ab0cfacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:47 +0000
Subject: [PATCH 121/171] fix: uniXXXX names of any code point

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 9a39c35..3c7e0a7 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -8,8 +8,6 @@
 #include "PdfDifferenceEncoding.h"
 
 #include <algorithm>
-
-#include <utfcpp/utf8.h>
 #include <pdfmm/private/charconv_compat.h>
 
 #include "PdfArray.h"
@@ -2674,7 +2672,7 @@ char32_t PdfDifferenceEncoding::NameToCodePoint(const string_view& name)
         auto end = code.data() + code.length();
         auto result = std::from_chars(code.data(), end, val, 16);
         if (result.ec == std::errc() && result.ptr == end
-            && utf8::internal::is_code_point_valid(val))
+            && val <= 0x10FFFF)
         {
             return (char32_t)val;
         }
-- 
2.43.0


From d0e3e45f08a1118b067ccd2ca2c8a77691431d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:10 +0000
Subject: [PATCH 122/171] fix: compare strings by their text, whether it has
 been read or not

---
 src/pdfmm/base/PdfString.cpp | 104 +++++++++++++----------------------
 src/pdfmm/base/PdfString.h   |   5 +-
 2 files changed, 40 insertions(+), 69 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index c69dea5..66e384f 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -32,6 +32,7 @@ enum class StringEncoding
 static char getEscapedCharacter(char ch);
 static StringEncoding getEncoding(const string_view& view);
 static bool tryReadUnicode(const string_view& view, StringEncoding encoding, string& utf8str);
+static PdfStringState evaluate(const string_view& data, string& utf8);
 
 PdfString::PdfString()
     : m_data(new StringData{ PdfStringState::Ascii, { } }), m_isHex(false)
@@ -234,16 +235,19 @@ const PdfString& PdfString::operator=(const PdfString& rhs)
 
 bool PdfString::operator==(const PdfString& rhs) const
 {
-    if (this == &rhs)
+    if (this == &rhs || this->m_data == rhs.m_data)
         return true;
 
-    if (!canPerformComparison(*this, rhs))
-        return false;
-
-    if (this->m_data == rhs.m_data)
+    if (this->m_data->State == rhs.m_data->State && this->m_data->Chars == rhs.m_data->Chars)
         return true;
 
-    return this->m_data->Chars == rhs.m_data->Chars;
+    // Compare the texts, without evaluating the strings
+    if (rhs.m_data->State != PdfStringState::RawBuffer)
+        return equalsText(rhs.m_data->Chars);
+
+    string text;
+    (void)evaluate(rhs.m_data->Chars, text);
+    return equalsText(text);
 }
 
 bool PdfString::operator==(const char* str) const
@@ -258,24 +262,12 @@ bool PdfString::operator==(const string& str) const
 
 bool PdfString::operator==(const string_view& view) const
 {
-    if (!isValidText())
-        return false;
-
-    return m_data->Chars == view;
+    return equalsText(view);
 }
 
 bool PdfString::operator!=(const PdfString& rhs) const
 {
-    if (this == &rhs)
-        return false;
-
-    if (!canPerformComparison(*this, rhs))
-        return true;
-
-    if (this->m_data == rhs.m_data)
-        return false;
-
-    return this->m_data->Chars != rhs.m_data->Chars;
+    return !operator==(rhs);
 }
 
 bool PdfString::operator!=(const char* str) const
@@ -290,10 +282,7 @@ bool PdfString::operator!=(const string& str) const
 
 bool PdfString::operator!=(const string_view& view) const
 {
-    if (!isValidText())
-        return true;
-
-    return m_data->Chars != view;
+    return !equalsText(view);
 }
 
 PdfString::operator string_view() const
@@ -334,34 +323,17 @@ void PdfString::evaluateString() const
             return;
         case PdfStringState::RawBuffer:
         {
-            auto encoding = getEncoding(m_data->Chars);
             string utf8;
-            if (encoding != StringEncoding::PdfDocEncoding && !tryReadUnicode(m_data->Chars, encoding, utf8))
+            auto state = evaluate(m_data->Chars, utf8);
+            if (m_data.use_count() == 1)
             {
-                // It's not valid unicode, in spite of the byte order mark
-                encoding = StringEncoding::PdfDocEncoding;
+                utf8.swap(m_data->Chars);
+                m_data->State = state;
             }
-
-            switch (encoding)
+            else
             {
-                case StringEncoding::utf16be:
-                case StringEncoding::utf16le:
-                case StringEncoding::utf8:
-                {
-                    utf8.swap(m_data->Chars);
-                    m_data->State = PdfStringState::Unicode;
-                    break;
-                }
-                case StringEncoding::PdfDocEncoding:
-                {
-                    bool isAsciiEqual;
-                    auto utf8 = mm::ConvertPdfDocEncodingToUTF8(m_data->Chars, isAsciiEqual);
-                    utf8.swap(m_data->Chars);
-                    m_data->State = isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding;
-                    break;
-                }
-                default:
-                    throw runtime_error("Unsupported");
+                // The copies of this string keep the raw data
+                m_data.reset(new StringData{ state, charbuff(std::move(utf8)) });
             }
 
             return;
@@ -371,16 +343,14 @@ void PdfString::evaluateString() const
     }
 }
 
-// Returns true only if same state or it's valid text string
-bool PdfString::canPerformComparison(const PdfString& lhs, const PdfString& rhs)
+bool PdfString::equalsText(const string_view& view) const
 {
-    if (lhs.m_data->State == rhs.m_data->State)
-        return true;
-
-    if (lhs.isValidText() || rhs.isValidText())
-        return true;
+    if (m_data->State != PdfStringState::RawBuffer)
+        return m_data->Chars == view;
 
-    return false;
+    string text;
+    (void)evaluate(m_data->Chars, text);
+    return text == view;
 }
 
 const string& PdfString::GetRawData() const
@@ -391,19 +361,21 @@ const string& PdfString::GetRawData() const
     return m_data->Chars;
 }
 
-bool PdfString::isValidText() const
+// Read the text of raw string data
+PdfStringState evaluate(const string_view& data, string& utf8)
 {
-    switch (m_data->State)
+    auto encoding = getEncoding(data);
+    if (encoding != StringEncoding::PdfDocEncoding)
     {
-        case PdfStringState::Ascii:
-        case PdfStringState::PdfDocEncoding:
-        case PdfStringState::Unicode:
-            return true;
-        case PdfStringState::RawBuffer:
-            return false;
-        default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
+        if (tryReadUnicode(data, encoding, utf8))
+            return PdfStringState::Unicode;
+
+        // It's not valid unicode, in spite of the byte order mark
     }
+
+    bool isAsciiEqual;
+    utf8 = mm::ConvertPdfDocEncodingToUTF8(data, isAsciiEqual);
+    return isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding;
 }
 
 StringEncoding getEncoding(const string_view& view)
diff --git a/src/pdfmm/base/PdfString.h b/src/pdfmm/base/PdfString.h
index 69103ff..b4b5a07 100644
--- a/src/pdfmm/base/PdfString.h
+++ b/src/pdfmm/base/PdfString.h
@@ -141,8 +141,7 @@ private:
      */
     void initFromUtf8String(const std::string_view& view);
     void evaluateString() const;
-    bool isValidText() const;
-    static bool canPerformComparison(const PdfString& lhs, const PdfString& rhs);
+    bool equalsText(const std::string_view& view) const;
 
 private:
     struct StringData
@@ -152,7 +151,7 @@ private:
     };
 
 private:
-    std::shared_ptr<StringData> m_data;
+    mutable std::shared_ptr<StringData> m_data;
     bool m_isHex;    // This string is converted to hex during writing it out
 };
 
-- 
2.43.0


From a981963441215fbbc1d8b0433e9f1b5916d82012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:10 +0000
Subject: [PATCH 123/171] fix: load the stream before moving the dictionary of
 an object

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 2aec63a..71258f6 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -111,7 +111,7 @@ PdfObject::PdfObject(const PdfObject& rhs)
 // always detached. Ownership will be set automatically elsewhere.
 // Also don't move reference
 PdfObject::PdfObject(PdfObject&& rhs) noexcept :
-    m_Variant((rhs.DelayedLoad(), std::move(rhs.m_Variant))),
+    m_Variant((rhs.DelayedLoadStream(), std::move(rhs.m_Variant))),
     m_IsDirty(false)
 {
     initObject();
-- 
2.43.0


From d126f2d0bec0a5904077d2d3bf5b5c7c47023b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:15 +0000
Subject: [PATCH 124/171] fix: annotations of unknown types don't make a page
 unusable

---
 src/pdfmm/base/PdfAnnotation.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotation.cpp b/src/pdfmm/base/PdfAnnotation.cpp
index 6ca8597..326fb22 100644
--- a/src/pdfmm/base/PdfAnnotation.cpp
+++ b/src/pdfmm/base/PdfAnnotation.cpp
@@ -506,7 +506,9 @@ bool PdfAnnotation::tryCreateFromObject(const PdfObject& obj, PdfAnnotationType
             xobj = new PdfAnnotationProjection(const_cast<PdfObject&>(obj));
             return true;
         default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
+            // Unknown or missing subtype
+            xobj = nullptr;
+            return false;
     }
 }
 
@@ -577,7 +579,11 @@ PdfAnnotationType PdfAnnotation::getAnnotationType(const type_info& typeInfo)
 PdfAnnotationType PdfAnnotation::getAnnotationType(const PdfObject& obj)
 {
     const PdfName* name;
-    auto subTypeObj = obj.GetDictionary().FindKey(PdfName::KeySubtype);
+    const PdfDictionary* dict;
+    if (!obj.TryGetDictionary(dict))
+        return PdfAnnotationType::Unknown;
+
+    auto subTypeObj = dict->FindKey(PdfName::KeySubtype);
     if (subTypeObj == nullptr || !subTypeObj->TryGetName(name))
         return PdfAnnotationType::Unknown;
 
-- 
2.43.0


From 4ed9d0fa85a487807a2f28efb101cd8447aeba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:15 +0000
Subject: [PATCH 125/171] fix: annotation lists with invalid, direct or
 repeated entries

---
 src/pdfmm/base/PdfAnnotationCollection.cpp | 38 +++++++++++-----------
 src/pdfmm/base/PdfAnnotationCollection.h   |  6 ++--
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index af15e10..140e6a7 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -47,15 +47,9 @@ void PdfAnnotationCollection::RemoveAnnotAt(unsigned index)
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Annots[index] != nullptr)
-    {
-        // It may be null if the annotation is invalid
-        m_annotMap->erase(m_annotMap->find(m_Annots[index]->GetObject().GetIndirectReference()));
-    }
-
     m_annotArray->RemoveAt(index);
     m_Annots.erase(m_Annots.begin() + index);
-    fixIndices(index);
+    fixIndices();
 
     // NOTE: No need to remove the object from the document
     // indirect object list: it will be garbage collected
@@ -71,8 +65,7 @@ void PdfAnnotationCollection::RemoveAnnot(const PdfReference& ref)
     unsigned index = found->second;
     m_Annots.erase(m_Annots.begin() + index);
     m_annotArray->RemoveAt(index);
-    m_annotMap->erase(found);
-    fixIndices(index);
+    fixIndices();
 
     // NOTE: No need to remove the object from the document
     // indirect object list: it will be garbage collected
@@ -86,21 +79,25 @@ unsigned PdfAnnotationCollection::GetCount() const
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::begin()
 {
+    initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::end()
 {
+    initAnnotations();
     return m_Annots.end();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::begin() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::end() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.end();
 }
 
@@ -137,6 +134,9 @@ PdfAnnotation& PdfAnnotationCollection::getAnnotAt(unsigned index) const
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
+    if (m_Annots[index] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "The annotation is invalid");
+
     return *m_Annots[index];
 }
 
@@ -158,12 +158,10 @@ void PdfAnnotationCollection::initAnnotations()
 
     m_Annots.reserve(m_annotArray->size());
     unique_ptr<PdfAnnotation> annot;
-    unsigned i = 0;
     for (auto obj : m_annotArray->GetIndirectIterator())
     {
-        (*m_annotMap)[obj->GetIndirectReference()] = i;
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfAnnotation::TryCreateFromObject(*obj, annot))
+        if (obj != nullptr && PdfAnnotation::TryCreateFromObject(*obj, annot))
         {
             annot->SetPage(*m_Page);
             m_Annots.push_back(std::move(annot));
@@ -172,17 +170,19 @@ void PdfAnnotationCollection::initAnnotations()
         {
             m_Annots.push_back(nullptr);
         }
-
-        i++;
     }
+
+    fixIndices();
 }
 
-void PdfAnnotationCollection::fixIndices(unsigned index)
+void PdfAnnotationCollection::fixIndices()
 {
-    for (auto& pair : *m_annotMap)
+    m_annotMap->clear();
+    for (unsigned i = 0; i < m_Annots.size(); i++)
     {
-        // Decrement indices where needed
-        if (pair.second > index)
-            pair.second--;
+        // Placeholders and direct objects can't be found by reference.
+        // The first entry is found if the same object is there twice
+        if (m_Annots[i] != nullptr && m_Annots[i]->GetObject().IsIndirect())
+            m_annotMap->insert({ m_Annots[i]->GetObject().GetIndirectReference(), i });
     }
 }
diff --git a/src/pdfmm/base/PdfAnnotationCollection.h b/src/pdfmm/base/PdfAnnotationCollection.h
index 11d32f5..cdcca48 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.h
+++ b/src/pdfmm/base/PdfAnnotationCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
         private:
             TListIterator m_iterator;
@@ -103,7 +103,7 @@ namespace mm
         void initAnnotations();
         PdfAnnotation& getAnnotAt(unsigned index) const;
         PdfAnnotation& getAnnot(const PdfReference& ref) const;
-        void fixIndices(unsigned index);
+        void fixIndices();
 
     private:
         using AnnotationMap = std::map<PdfReference, unsigned>;
-- 
2.43.0


From d40096b2f2c663262bb1963b66456e14448c3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:15 +0000
Subject: [PATCH 126/171] fix: form field lists with invalid, direct or
 repeated entries

---
 src/pdfmm/base/PdfAcroForm.cpp | 38 +++++++++++++++++-----------------
 src/pdfmm/base/PdfAcroForm.h   |  2 +-
 src/pdfmm/base/PdfField.cpp    | 13 +++++++++++-
 3 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index ddf5fd1..cd2ace4 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -96,6 +96,9 @@ PdfField& PdfAcroForm::getField(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
+    if (m_Fields[index] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "The field is invalid");
+
     return *m_Fields[index];
 }
 
@@ -111,15 +114,9 @@ void PdfAcroForm::RemoveFieldAt(unsigned index)
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Fields[index] != nullptr)
-    {
-        // It may be null if the field is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
-    }
-
     m_fieldArray->RemoveAt(index);
     m_Fields.erase(m_Fields.begin() + index);
-    fixIndices(index);
+    fixIndices();
 
     // NOTE: No need to remove the object from the document
     // indirect object list: it will be garbage collected
@@ -135,8 +132,7 @@ void PdfAcroForm::RemoveField(const PdfReference& ref)
     unsigned index = found->second;
     m_Fields.erase(m_Fields.begin() + index);
     m_fieldArray->RemoveAt(index);
-    m_fieldMap->erase(found);
-    fixIndices(index);
+    fixIndices();
 
     // NOTE: No need to remove the object from the document
     // indirect object list: it will be garbage collected
@@ -150,21 +146,25 @@ unsigned PdfAcroForm::GetFieldCount() const
 
 PdfAcroForm::iterator PdfAcroForm::begin()
 {
+    initFields();
     return iterator(m_Fields.begin());
 }
 
 PdfAcroForm::iterator PdfAcroForm::end()
 {
+    initFields();
     return iterator(m_Fields.end());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::begin() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.begin());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::end() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.end());
 }
 
@@ -222,26 +222,26 @@ void PdfAcroForm::initFields()
 
     m_Fields.reserve(m_fieldArray->size());
     unique_ptr<PdfField> field;
-    unsigned i = 0;
     for (auto obj : m_fieldArray->GetIndirectIterator())
     {
-        (*m_fieldMap)[obj->GetIndirectReference()] = i;
         // The field may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
             m_Fields.push_back(std::move(field));
         else
             m_Fields.push_back(nullptr);
-
-        i++;
     }
+
+    fixIndices();
 }
 
-void PdfAcroForm::fixIndices(unsigned index)
+void PdfAcroForm::fixIndices()
 {
-    for (auto& pair : *m_fieldMap)
+    m_fieldMap->clear();
+    for (unsigned i = 0; i < m_Fields.size(); i++)
     {
-        // Decrement indices where needed
-        if (pair.second > index)
-            pair.second--;
+        // Placeholders and direct objects can't be found by reference.
+        // The first entry is found if the same object is there twice
+        if (m_Fields[i] != nullptr && m_Fields[i]->GetObject().IsIndirect())
+            m_fieldMap->insert({ m_Fields[i]->GetObject().GetIndirectReference(), i });
     }
 }
diff --git a/src/pdfmm/base/PdfAcroForm.h b/src/pdfmm/base/PdfAcroForm.h
index be098f2..f88d9e6 100644
--- a/src/pdfmm/base/PdfAcroForm.h
+++ b/src/pdfmm/base/PdfAcroForm.h
@@ -162,7 +162,7 @@ private:
     PdfField& getField(unsigned index) const;
     PdfField& getField(const PdfReference& ref) const;
 
-    void fixIndices(unsigned index);
+    void fixIndices();
 
 private:
     using FieldMap = std::map<PdfReference, unsigned>;
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 260f7ac..b1bb906 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -79,6 +79,9 @@ PdfField::PdfField(PdfObject& obj, PdfAcroForm* acroform, PdfFieldType fieldType
 
 bool PdfField::TryCreateFromObject(PdfObject& obj, unique_ptr<PdfField>& field)
 {
+    if (!obj.IsDictionary())
+        return false;
+
     return tryCreateField(obj, getFieldType(obj), field);
 }
 
@@ -169,6 +172,10 @@ PdfField& PdfField::Create(const string_view& name,
     {
         for (auto field : *acroForm)
         {
+            // The field is null if it is invalid
+            if (field == nullptr)
+                continue;
+
             // Find a candidate parent with same name and type
             auto fieldName = field->GetNameRaw();
             if (fieldName.has_value() && *fieldName == name)
@@ -417,7 +424,11 @@ PdfFieldType PdfField::getFieldType(const PdfObject& obj)
     if (ftObj == nullptr)
         return PdfFieldType::Unknown;
 
-    auto& fieldType = ftObj->GetName();
+    const PdfName* name;
+    if (!ftObj->TryGetName(name))
+        return PdfFieldType::Unknown;
+
+    auto& fieldType = *name;
     if (fieldType == "Btn")
     {
         int64_t flags;
-- 
2.43.0


From 99dffcef1a9f8d1a0541e53c2a16efbc7e033beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:15 +0000
Subject: [PATCH 127/171] fix: lists of field children with invalid entries

---
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 38 +++++++++----------
 src/pdfmm/base/PdfFieldChildrenCollection.h   |  6 +--
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 76e05e8..04c420d 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -54,15 +54,9 @@ void PdfFieldChildrenCollectionBase::RemoveFieldAt(unsigned index)
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Fields[index] != nullptr)
-    {
-        // It may be null if the annotation is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
-    }
-
     m_kidsArray->RemoveAt(index);
     m_Fields.erase(m_Fields.begin() + index);
-    fixIndices(index);
+    fixIndices();
 
     // NOTE: No need to remove the object from the document
     // indirect object list: it will be garbage collected
@@ -78,8 +72,7 @@ void PdfFieldChildrenCollectionBase::RemoveField(const PdfReference& ref)
     unsigned index = found->second;
     m_Fields.erase(m_Fields.begin() + index);
     m_kidsArray->RemoveAt(index);
-    m_fieldMap->erase(found);
-    fixIndices(index);
+    fixIndices();
 
     // NOTE: No need to remove the object from the document
     // indirect object list: it will be garbage collected
@@ -99,21 +92,25 @@ bool PdfFieldChildrenCollectionBase::HasKidsArray() const
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::begin()
 {
+    initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::end()
 {
+    initFields();
     return m_Fields.end();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::begin() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::end() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.end();
 }
 
@@ -146,6 +143,9 @@ PdfField& PdfFieldChildrenCollectionBase::getFieldAt(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
+    if (m_Fields[index] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "The field is invalid");
+
     return *m_Fields[index];
 }
 
@@ -167,12 +167,10 @@ void PdfFieldChildrenCollectionBase::initFields()
 
     m_Fields.reserve(m_kidsArray->size());
     unique_ptr<PdfField> field;
-    unsigned i = 0;
     for (auto obj : m_kidsArray->GetIndirectIterator())
     {
-        (*m_fieldMap)[obj->GetIndirectReference()] = i;
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
         {
             field->SetParent(m_field->GetPtr());
             m_Fields.push_back(std::move(field));
@@ -181,17 +179,19 @@ void PdfFieldChildrenCollectionBase::initFields()
         {
             m_Fields.push_back(nullptr);
         }
-
-        i++;
     }
+
+    fixIndices();
 }
 
-void PdfFieldChildrenCollectionBase::fixIndices(unsigned index)
+void PdfFieldChildrenCollectionBase::fixIndices()
 {
-    for (auto& pair : *m_fieldMap)
+    m_fieldMap->clear();
+    for (unsigned i = 0; i < m_Fields.size(); i++)
     {
-        // Decrement indices where needed
-        if (pair.second > index)
-            pair.second--;
+        // Placeholders and direct objects can't be found by reference.
+        // The first entry is found if the same object is there twice
+        if (m_Fields[i] != nullptr && m_Fields[i]->GetObject().IsIndirect())
+            m_fieldMap->insert({ m_Fields[i]->GetObject().GetIndirectReference(), i });
     }
 }
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.h b/src/pdfmm/base/PdfFieldChildrenCollection.h
index 4057501..a2a710d 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.h
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
         private:
             TListIterator m_iterator;
@@ -104,7 +104,7 @@ namespace mm
         void initFields();
         PdfField& getFieldAt(unsigned index) const;
         PdfField& getField(const PdfReference& ref) const;
-        void fixIndices(unsigned index);
+        void fixIndices();
 
     private:
         using FieldMap = std::map<PdfReference, unsigned>;
-- 
2.43.0


From 1f397818094a6aa375de7e43d72ff2f741d53dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:16 +0000
Subject: [PATCH 128/171] fix: fields of loaded documents can be parents

---
 src/pdfmm/base/PdfAcroForm.cpp                | 3 +++
 src/pdfmm/base/PdfField.cpp                   | 8 ++------
 src/pdfmm/base/PdfField.h                     | 4 +++-
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 1 +
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index cd2ace4..3518d60 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -226,7 +226,10 @@ void PdfAcroForm::initFields()
     {
         // The field may be invalid. In that case we push a placeholder
         if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
+        {
+            field->SetAcroForm(this);
             m_Fields.push_back(std::move(field));
+        }
         else
             m_Fields.push_back(nullptr);
     }
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index b1bb906..d5af141 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -356,12 +356,8 @@ PdfFieldType PdfField::getFieldType(const type_info& typeInfo)
 
 shared_ptr<PdfField> PdfField::GetPtr()
 {
-    if (m_AcroForm != nullptr)
-        return m_AcroForm->GetFieldPtr(GetObject().GetIndirectReference());
-    else if (m_Widget != nullptr)
-        return m_Widget->GetFieldPtr();
-    else
-        return nullptr;
+    // The field is not owned by a collection or a widget if there's none
+    return weak_from_this().lock();
 }
 
 PdfField* PdfField::getParentTyped(PdfFieldType type) const
diff --git a/src/pdfmm/base/PdfField.h b/src/pdfmm/base/PdfField.h
index 8ef8781..163b029 100644
--- a/src/pdfmm/base/PdfField.h
+++ b/src/pdfmm/base/PdfField.h
@@ -22,7 +22,7 @@ class PdfPage;
 class PdfAcroForm;
 class PdfAnnotationWidget;
 
-class PDFMM_API PdfField : public PdfDictionaryElement
+class PDFMM_API PdfField : public PdfDictionaryElement, public std::enable_shared_from_this<PdfField>
 {
     friend class PdfSignature;
     friend class PdfButton;
@@ -254,6 +254,8 @@ protected:
 
 private:
     void SetWidget(PdfAnnotationWidget& widget) { m_Widget = &widget; }
+    void SetAcroForm(PdfAcroForm* acroForm) { m_AcroForm = acroForm; }
+    PdfAcroForm* GetAcroForm() const { return m_AcroForm; }
 
 private:
     // To be called by PdfPage
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 04c420d..9d1c13f 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -172,6 +172,7 @@ void PdfFieldChildrenCollectionBase::initFields()
         // The annotation may be invalid. In that case we push a placeholder
         if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
         {
+            field->SetAcroForm(m_field->GetAcroForm());
             field->SetParent(m_field->GetPtr());
             m_Fields.push_back(std::move(field));
         }
-- 
2.43.0


From 3ca77c2b923a693e4c8fe5dcfa2a01f97552c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:16 +0000
Subject: [PATCH 129/171] fix: the maximum length of text fields

---
 src/pdfmm/base/PdfTextBox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 6f3ceb2..7ffa038 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -76,7 +76,7 @@ int64_t PdfTextBox::GetMaxLen() const
 {
     int64_t ret;
     auto found = GetDictionary().FindKeyParent("MaxLen");
-    if (found == nullptr || found->TryGetNumber(ret))
+    if (found == nullptr || !found->TryGetNumber(ret))
         return -1;
 
     return ret;
-- 
2.43.0


From 4062398df77fc1388f87472b91c1821c5068101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:16 +0000
Subject: [PATCH 130/171] fix: spell checking and scrolling of fields

---
 src/pdfmm/base/PdfChoiceField.cpp | 2 +-
 src/pdfmm/base/PdfTextBox.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index 12188c0..ee20d12 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -184,7 +184,7 @@ void PdChoiceField::SetSpellcheckingEnabled(bool spellCheck)
 
 bool PdChoiceField::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), false);
 }
 
 void PdChoiceField::SetSorted(bool sorted)
diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 7ffa038..7ac10ba 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -119,7 +119,7 @@ void PdfTextBox::SetSpellcheckingEnabled(bool spellcheck)
 
 bool PdfTextBox::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), false);
 }
 
 void PdfTextBox::SetScrollBarsEnabled(bool scroll)
@@ -129,7 +129,7 @@ void PdfTextBox::SetScrollBarsEnabled(bool scroll)
 
 bool PdfTextBox::IsScrollBarsEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), false);
 }
 
 void PdfTextBox::SetCombs(bool combs)
-- 
2.43.0


From 0dbe2ab20ddafb5131160725d0de3dcf44a5a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:16 +0000
Subject: [PATCH 131/171] fix: direct annotations and fields move when their
 list grows

---
 src/pdfmm/base/PdfAcroForm.cpp                | 7 ++++++-
 src/pdfmm/base/PdfAnnotationCollection.cpp    | 7 ++++++-
 src/pdfmm/base/PdfElement.h                   | 8 ++++++++
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 7 ++++++-
 src/pdfmm/private/PdfDeclarationsPrivate.cpp  | 2 +-
 5 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index 3518d60..8641826 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -179,9 +179,9 @@ PdfField& PdfAcroForm::AddField(unique_ptr<PdfField>&& field)
     if (m_fieldArray == nullptr)
         m_fieldArray = &GetDictionary().AddKey("Fields", PdfArray()).GetArray();
 
-    (*m_fieldMap)[field->GetObject().GetIndirectReference()] = m_fieldArray->GetSize();
     m_fieldArray->AddIndirectSafe(field->GetObject());
     m_Fields.push_back(std::move(field));
+    fixIndices();
     return *m_Fields.back();
 }
 
@@ -242,6 +242,11 @@ void PdfAcroForm::fixIndices()
     m_fieldMap->clear();
     for (unsigned i = 0; i < m_Fields.size(); i++)
     {
+        // Direct objects are moved when the array changes
+        auto& obj = (*m_fieldArray)[i];
+        if (m_Fields[i] != nullptr && !obj.IsReference())
+            m_Fields[i]->SetObject(obj);
+
         // Placeholders and direct objects can't be found by reference.
         // The first entry is found if the same object is there twice
         if (m_Fields[i] != nullptr && m_Fields[i]->GetObject().IsIndirect())
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index 140e6a7..1ea3ee2 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -112,10 +112,10 @@ PdfAnnotation& PdfAnnotationCollection::addAnnotation(unique_ptr<PdfAnnotation>&
     if (m_annotArray == nullptr)
         m_annotArray = &m_Page->GetDictionary().AddKey("Annots", PdfArray()).GetArray();
 
-    (*m_annotMap)[annot->GetObject().GetIndirectReference()] = m_annotArray->GetSize();
     m_annotArray->AddIndirectSafe(annot->GetObject());
     auto ret = annot.get();
     m_Annots.push_back(std::move(annot));
+    fixIndices();
     return *ret;
 }
 
@@ -180,6 +180,11 @@ void PdfAnnotationCollection::fixIndices()
     m_annotMap->clear();
     for (unsigned i = 0; i < m_Annots.size(); i++)
     {
+        // Direct objects are moved when the array changes
+        auto& obj = (*m_annotArray)[i];
+        if (m_Annots[i] != nullptr && !obj.IsReference())
+            m_Annots[i]->SetObject(obj);
+
         // Placeholders and direct objects can't be found by reference.
         // The first entry is found if the same object is there twice
         if (m_Annots[i] != nullptr && m_Annots[i]->GetObject().IsIndirect())
diff --git a/src/pdfmm/base/PdfElement.h b/src/pdfmm/base/PdfElement.h
index b717d33..93156fa 100644
--- a/src/pdfmm/base/PdfElement.h
+++ b/src/pdfmm/base/PdfElement.h
@@ -32,6 +32,10 @@ class PdfIndirectObjectList;
  */
 class PDFMM_API PdfElement
 {
+    friend class PdfAnnotationCollection;
+    friend class PdfAcroForm;
+    friend class PdfFieldChildrenCollectionBase;
+
 public:
 
     virtual ~PdfElement();
@@ -65,6 +69,10 @@ protected:
      */
     PdfElement(PdfObject& obj, PdfDataType expectedDataType);
 
+private:
+    // To be called when the object has been moved
+    void SetObject(PdfObject& obj) { m_Object = &obj; }
+
 private:
     PdfElement(const PdfElement& element) = delete;
     PdfElement& operator=(const PdfElement& element) = delete;
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 9d1c13f..9977628 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -121,10 +121,10 @@ PdfField& PdfFieldChildrenCollectionBase::AddChild(const shared_ptr<PdfField>& f
     if (m_kidsArray == nullptr)
         m_kidsArray = &m_field->GetDictionary().AddKey("Kids", PdfArray()).GetArray();
 
-    (*m_fieldMap)[field->GetObject().GetIndirectReference()] = m_kidsArray->GetSize();
     m_kidsArray->AddIndirectSafe(field->GetObject());
     auto ret = field.get();
     m_Fields.push_back(field);
+    fixIndices();
     return *ret;
 }
 
@@ -190,6 +190,11 @@ void PdfFieldChildrenCollectionBase::fixIndices()
     m_fieldMap->clear();
     for (unsigned i = 0; i < m_Fields.size(); i++)
     {
+        // Direct objects are moved when the array changes
+        auto& obj = (*m_kidsArray)[i];
+        if (m_Fields[i] != nullptr && !obj.IsReference())
+            m_Fields[i]->SetObject(obj);
+
         // Placeholders and direct objects can't be found by reference.
         // The first entry is found if the same object is there twice
         if (m_Fields[i] != nullptr && m_Fields[i]->GetObject().IsIndirect())
diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index a02026e..41b1e87 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -291,7 +291,7 @@ PdfAnnotationType mm::NameToAnnotationType(const string_view& str)
     else if (str == "Projection"sv)
         return PdfAnnotationType::Projection;
     else
-        PDFMM_RAISE_ERROR(PdfErrorCode::InternalLogic);
+        return PdfAnnotationType::Unknown;
 }
 
 PdfColorSpace mm::NameToColorSpaceRaw(const string_view& name)
-- 
2.43.0


From d2eaf3e5d5eee0b011ee940993ef7aa74092c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:16 +0000
Subject: [PATCH 132/171] fix: appearance states don't go into an appearance
 stream

---
 src/pdfmm/base/PdfAnnotation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfAnnotation.cpp b/src/pdfmm/base/PdfAnnotation.cpp
index 326fb22..1a394d7 100644
--- a/src/pdfmm/base/PdfAnnotation.cpp
+++ b/src/pdfmm/base/PdfAnnotation.cpp
@@ -86,7 +86,7 @@ void mm::SetAppearanceStreamForObject(PdfObject& obj, PdfXObjectForm& xobj,
     {
         // when the state is defined, then the appearance is expected to be a dictionary
         auto apInnerObj = apObj->GetDictionary().FindKey(name);
-        if (apInnerObj == nullptr || !apInnerObj->IsDictionary())
+        if (apInnerObj == nullptr || !apInnerObj->IsDictionary() || apInnerObj->HasStream())
             apInnerObj = &apObj->GetDictionary().AddKey(name, PdfDictionary());
 
         apInnerObj->GetDictionary().AddKeyIndirectSafe(state, xobj.GetObject());
-- 
2.43.0


From 37a2ceb7c222777ab4c0ab725d12e3abd0688c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 133/171] fix: keywords don't include their separators

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 41b1e87..2b37b5e 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -462,13 +462,14 @@ vector<string> mm::ToPdfKeywordsList(const string_view& str)
     string token;
     while (it != end)
     {
+        auto tokenEnd = it;
         auto ch = (char32_t)utf8::next(it, end);
         switch (ch)
         {
             case U'\r':
             case U'\n':
             {
-                token = string(tokenStart, it);
+                token = string(tokenStart, tokenEnd);
                 if (token.length() != 0)
                     ret.push_back(std::move(token));
                 tokenStart = it;
-- 
2.43.0


From 9c49603f23e5aba84de8c34b2fe12445dbebb67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 134/171] fix: text put in XMP packets is escaped

---
 src/pdfmm/base/PdfXMPPacket.cpp |  2 +-
 src/pdfmm/private/XMPUtils.cpp  |  4 ++--
 src/pdfmm/private/XmlUtils.cpp  | 22 ++++++++++++++++++++++
 src/pdfmm/private/XmlUtils.h    |  1 +
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfXMPPacket.cpp b/src/pdfmm/base/PdfXMPPacket.cpp
index 492e3bd..6dbf7c7 100644
--- a/src/pdfmm/base/PdfXMPPacket.cpp
+++ b/src/pdfmm/base/PdfXMPPacket.cpp
@@ -235,7 +235,7 @@ void normalizeElement(xmlDocPtr doc, xmlNodePtr elem)
             continue;
 
         auto value = utls::GetAttributeValue(attr);
-        if (xmlNewChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
+        if (xmlNewTextChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
             THROW_LIBXML_EXCEPTION("Can't create value replacement node");
 
         attribsToRemove.push_back(attr);
diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index f653d4d..9a94967 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -283,7 +283,7 @@ void addXMPProperty(xmlDocPtr doc, xmlNodePtr description,
         }
         default:
         {
-            xmlNodeSetContent(element, XMLCHAR values[0].data());
+            utls::SetNodeText(element, values[0]);
             break;
         }
     }
@@ -330,7 +330,7 @@ void utls::SetListNodeContent(xmlDocPtr doc, xmlNodePtr node, XMPListType seqTyp
                 THROW_LIBXML_EXCEPTION(utls::Format("Can't set xml:lang attribute on rdf:li node"));
         }
 
-        xmlNodeSetContent(liElem, XMLCHAR view.data());
+        utls::SetNodeText(liElem, view);
     }
 
     newNode = innerElem->children;
diff --git a/src/pdfmm/private/XmlUtils.cpp b/src/pdfmm/private/XmlUtils.cpp
index a2a9875..2a38a90 100644
--- a/src/pdfmm/private/XmlUtils.cpp
+++ b/src/pdfmm/private/XmlUtils.cpp
@@ -6,6 +6,7 @@
 
 #include "PdfDeclarationsPrivate.h"
 #include "XmlUtils.h"
+#include <libxml/chvalid.h>
 
 using namespace std;
 using namespace mm;
@@ -95,6 +96,27 @@ nullable<string> utls::GetNodeContent(xmlNodePtr node)
     return string((const char*)content);
 }
 
+void utls::SetNodeText(xmlNodePtr node, const string_view& text)
+{
+    PDFMM_ASSERT(node != nullptr);
+    // NOTE: xmlNodeSetContent() would interpret entity references
+    // in the text. Also, characters that can't appear in XML 1.0
+    // documents are skipped, since they can't be escaped as well
+    string valid;
+    auto it = text.begin();
+    auto end = text.end();
+    while (it != end)
+    {
+        auto start = it;
+        auto ch = (int)utf8::next(it, end);
+        if (xmlIsCharQ(ch))
+            valid.append(start, it);
+    }
+
+    xmlNodeSetContent(node, nullptr);
+    xmlNodeAddContentLen(node, XMLCHAR valid.data(), (int)valid.size());
+}
+
 string utls::GetAttributeValue(xmlAttrPtr attr)
 {
     PDFMM_ASSERT(attr != nullptr);
diff --git a/src/pdfmm/private/XmlUtils.h b/src/pdfmm/private/XmlUtils.h
index ec9143b..b3d7fc0 100644
--- a/src/pdfmm/private/XmlUtils.h
+++ b/src/pdfmm/private/XmlUtils.h
@@ -35,6 +35,7 @@ namespace utls
     mm::nullable<std::string> FindAttribute(xmlNodePtr element, const std::string_view& name, xmlAttrPtr& ptr);
     mm::nullable<std::string> FindAttribute(xmlNodePtr element, const std::string_view& prefix, const std::string_view& name, xmlAttrPtr& ptr);
     mm::nullable<std::string> GetNodeContent(xmlNodePtr element);
+    void SetNodeText(xmlNodePtr node, const std::string_view& text);
     std::string GetAttributeValue(const xmlAttrPtr attr);
     std::string GetNodeName(xmlNodePtr node);
     std::string GetAttributeName(xmlAttrPtr attr);
-- 
2.43.0


From 2aae4539472a9679984eac019d988e0f41b46827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 135/171] fix: ensuring XMP metadata loads the information
 before

---
 src/pdfmm/base/PdfMetadata.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index 95bc023..bc32320 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -304,6 +304,7 @@ unique_ptr<PdfXMPPacket> PdfMetadata::TakeXMPPacket()
 
 void PdfMetadata::EnsureXMPMetadata()
 {
+    ensureInitialized();
     if (m_packet == nullptr)
         mm::UpdateOrCreateXMPMetadata(m_packet, m_metadata);
 
-- 
2.43.0


From 341112f6e9e5db8fa5b2acca029f5a6bfeedadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 136/171] fix: an XMP packet can be taken before anything else

---
 src/pdfmm/base/PdfMetadata.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index bc32320..a24256b 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -289,6 +289,7 @@ void PdfMetadata::SyncXMPMetadata(bool forceCreationXMP)
 
 unique_ptr<PdfXMPPacket> PdfMetadata::TakeXMPPacket()
 {
+    ensureInitialized();
     if (m_packet == nullptr)
         return nullptr;
 
-- 
2.43.0


From a4aac428d249a4717dd2abcaeb15cdde811fe599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 137/171] fix: the creator tool of XMP metadata is a simple
 value

---
 src/pdfmm/private/XMPUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index 9a94967..359753f 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -97,7 +97,7 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
 
     childElement = utls::FindChildElement(description, "xmp", "CreatorTool");
     if (childElement != nullptr)
-        metadata.Creator = getListElementText(childElement);
+        metadata.Creator = getElementText(childElement);
 
     childElement = utls::FindChildElement(description, "pdf", "Producer");
     if (childElement != nullptr)
-- 
2.43.0


From c1cf0b2901f1fa89ba3c4c0e8a621ec97071dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 138/171] fix: malformed dates of the document information are
 ignored

---
 src/pdfmm/base/PdfInfo.cpp     | 10 ++++++----
 src/pdfmm/private/XMPUtils.cpp | 15 +++++++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfInfo.cpp b/src/pdfmm/base/PdfInfo.cpp
index 672721c..40d908b 100644
--- a/src/pdfmm/base/PdfInfo.cpp
+++ b/src/pdfmm/base/PdfInfo.cpp
@@ -147,20 +147,22 @@ nullable<const PdfString&> PdfInfo::GetProducer() const
 
 nullable<PdfDate> PdfInfo::GetCreationDate() const
 {
+    PdfDate date;
     auto datestr = this->getStringFromInfoDict("CreationDate");
-    if (datestr == nullptr)
+    if (datestr == nullptr || !PdfDate::TryParse(*datestr, date))
         return nullptr;
     else
-        return PdfDate::Parse(*datestr);
+        return date;
 }
 
 nullable<PdfDate> PdfInfo::GetModDate() const
 {
+    PdfDate date;
     auto datestr = this->getStringFromInfoDict("ModDate");
-    if (datestr == nullptr)
+    if (datestr == nullptr || !PdfDate::TryParse(*datestr, date))
         return nullptr;
     else
-        return PdfDate::Parse(*datestr);
+        return date;
 }
 
 nullable<const PdfName&> PdfInfo::GetTrapped() const
diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index 359753f..336169c 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -63,6 +63,7 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
 
     xmlNodePtr childElement = nullptr;
     nullable<PdfString> text;
+    PdfDate date;
 
     {
         nullable<string> pdfaid_part;
@@ -104,12 +105,18 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
         metadata.Producer = getElementText(childElement);
 
     childElement = utls::FindChildElement(description, "xmp", "CreateDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.CreationDate = PdfDate::ParseW3C(*text);
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+        && PdfDate::TryParseW3C(*text, date))
+    {
+        metadata.CreationDate = date;
+    }
 
     childElement = utls::FindChildElement(description, "xmp", "ModifyDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.ModDate = PdfDate::ParseW3C(*text);
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+        && PdfDate::TryParseW3C(*text, date))
+    {
+        metadata.ModDate = date;
+    }
 
     return metadata;
 }
-- 
2.43.0


From 0fc60fd583e4b3ad8ed52778023bd9a42160926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 139/171] fix: default namespaces in XMP packets

---
 src/pdfmm/private/XmlUtils.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/private/XmlUtils.cpp b/src/pdfmm/private/XmlUtils.cpp
index 2a38a90..6ba1c88 100644
--- a/src/pdfmm/private/XmlUtils.cpp
+++ b/src/pdfmm/private/XmlUtils.cpp
@@ -11,6 +11,12 @@
 using namespace std;
 using namespace mm;
 
+// Default namespaces have no prefix
+static string_view getPrefix(const xmlNs& ns)
+{
+    return ns.prefix == nullptr ? string_view() : string_view((const char*)ns.prefix);
+}
+
 xmlNodePtr utls::FindChildElement(xmlNodePtr element, const std::string_view& name)
 {
     return FindChildElement(element, { }, name);
@@ -21,7 +27,7 @@ xmlNodePtr utls::FindChildElement(xmlNodePtr element, const string_view& prefix,
     for (auto child = xmlFirstElementChild(element); child != nullptr; child = xmlNextElementSibling(child))
     {
         if (child->ns != nullptr
-            && prefix == (const char*)child->ns->prefix
+            && prefix == getPrefix(*child->ns)
             && name == (const char*)child->name)
         {
             return child;
@@ -41,7 +47,7 @@ xmlNodePtr utls::FindSiblingNode(xmlNodePtr element, const string_view& prefix,
     for (auto sibling = xmlNextElementSibling(element); sibling; sibling = xmlNextElementSibling(sibling))
     {
         if ((prefix.length() == 0 || (sibling->ns != nullptr
-                && prefix == (const char*)sibling->ns->prefix))
+                && prefix == getPrefix(*sibling->ns)))
             && name == (const char*)sibling->name)
         {
             return sibling;
@@ -73,7 +79,7 @@ nullable<string> utls::FindAttribute(xmlNodePtr element, const string_view& pref
     for (xmlAttrPtr attr = element->properties; attr != nullptr; attr = attr->next)
     {
         if ((prefix.length() == 0 || (attr->ns != nullptr
-                && prefix == (const char*)attr->ns->prefix))
+                && prefix == getPrefix(*attr->ns)))
             && name == (const char*)attr->name)
         {
             found = attr;
@@ -132,7 +138,7 @@ string utls::GetAttributeName(xmlAttrPtr attr)
 
 string utls::GetNodeName(xmlNodePtr node)
 {
-    if (node->ns == nullptr)
+    if (node->ns == nullptr || node->ns->prefix == nullptr)
     {
         return (const char*)node->name;
     }
-- 
2.43.0


From 01f3273ff88b374f7f24630baa3c3b73d21471d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 140/171] fix: synchronize XMP metadata also when the value
 does not change

---
 src/pdfmm/base/PdfMetadata.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index a24256b..d1c5e47 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -22,7 +22,7 @@ PdfMetadata::PdfMetadata(PdfDocument& doc)
 void PdfMetadata::SetTitle(nullable<const PdfString&> title, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Title == title)
+    if (m_metadata.Title == title && (m_xmpSynced || !syncXMP))
         return;
 
     m_doc->GetOrCreateInfo().SetTitle(title);
@@ -45,7 +45,7 @@ const nullable<PdfString>& PdfMetadata::GetTitle() const
 void PdfMetadata::SetAuthor(nullable<const PdfString&> author, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Author == author)
+    if (m_metadata.Author == author && (m_xmpSynced || !syncXMP))
         return;
 
     m_doc->GetOrCreateInfo().SetAuthor(author);
@@ -68,7 +68,7 @@ const nullable<PdfString>& PdfMetadata::GetAuthor() const
 void PdfMetadata::SetSubject(nullable<const PdfString&> subject, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Subject == subject)
+    if (m_metadata.Subject == subject && (m_xmpSynced || !syncXMP))
         return;
 
     m_doc->GetOrCreateInfo().SetSubject(subject);
@@ -105,7 +105,7 @@ void PdfMetadata::SetKeywords(vector<string> keywords, bool syncXMP)
 void PdfMetadata::setKeywords(nullable<const PdfString&> keywords, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Keywords == keywords)
+    if (m_metadata.Keywords == keywords && (m_xmpSynced || !syncXMP))
         return;
 
     m_doc->GetOrCreateInfo().SetKeywords(keywords);
@@ -131,7 +131,7 @@ vector<string> PdfMetadata::GetKeywords() const
 void PdfMetadata::SetCreator(nullable<const PdfString&> creator, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Creator == creator)
+    if (m_metadata.Creator == creator && (m_xmpSynced || !syncXMP))
         return;
 
     m_doc->GetOrCreateInfo().SetCreator(creator);
@@ -154,7 +154,7 @@ const nullable<PdfString>& PdfMetadata::GetCreator() const
 void PdfMetadata::SetProducer(nullable<const PdfString&> producer, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Producer == producer)
+    if (m_metadata.Producer == producer && (m_xmpSynced || !syncXMP))
         return;
 
     m_doc->GetOrCreateInfo().SetProducer(producer);
@@ -177,7 +177,7 @@ const nullable<PdfString>& PdfMetadata::GetProducer() const
 void PdfMetadata::SetCreationDate(nullable<PdfDate> date, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.CreationDate == date)
+    if (m_metadata.CreationDate == date && (m_xmpSynced || !syncXMP))
         return;
 
     m_doc->GetOrCreateInfo().SetCreationDate(date);
@@ -197,7 +197,7 @@ const nullable<PdfDate>& PdfMetadata::GetCreationDate() const
 void PdfMetadata::SetModifyDate(nullable<PdfDate> date, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.ModDate == date)
+    if (m_metadata.ModDate == date && (m_xmpSynced || !syncXMP))
         return;
 
     m_doc->GetOrCreateInfo().SetModDate(date);
@@ -261,7 +261,7 @@ PdfALevel PdfMetadata::GetPdfALevel() const
 void PdfMetadata::SetPdfALevel(PdfALevel level, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.PdfaLevel == level)
+    if (m_metadata.PdfaLevel == level && (m_xmpSynced || !syncXMP))
         return;
 
     if (level != PdfALevel::Unknown)
-- 
2.43.0


From 47dc7eaaf6741de31845b5e9c9a951e78b60a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:47 +0000
Subject: [PATCH 141/171] fix: indexed color spaces of images loaded from PNG
 and TIFF files

---
 src/pdfmm/base/PdfImage.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index e843345..abda442 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -384,8 +384,8 @@ void PdfImage::SetDataRaw(InputStream& stream, const PdfImageInfo& info)
     {
         PdfArray arr;
         arr.Add(PdfName(mm::ColorSpaceToNameRaw(info.ColorSpace)));
-        arr.insert(arr.begin(), info.ColorSpaceArray.begin(), info.ColorSpaceArray.end());
-        dict.AddKey("ColorSpace", info.ColorSpaceArray);
+        arr.insert(arr.end(), info.ColorSpaceArray.begin(), info.ColorSpaceArray.end());
+        dict.AddKey("ColorSpace", arr);
     }
 
     GetObject().GetOrCreateStream().SetData(stream, true);
@@ -817,7 +817,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
 
             // Add the colorspace to our image
             PdfArray colorSpace;
-            colorSpace.Add(PdfName("Indexed"));
+            info.ColorSpace = PdfColorSpace::Indexed;
             colorSpace.Add(PdfName("DeviceRGB"));
             colorSpace.Add(static_cast<int64_t>(numColors) - 1);
             colorSpace.Add(idxObj.GetIndirectReference());
@@ -1285,6 +1285,7 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
         auto& idxObj = image.GetDocument().GetObjects().CreateDictionaryObject();
         idxObj.GetOrCreateStream().SetData(data);
 
+        info.ColorSpace = PdfColorSpace::Indexed;
         PdfArray array;
         array.Add(PdfName("DeviceRGB"));
         array.Add(static_cast<int64_t>(colorCount - 1));
-- 
2.43.0


From 731498b18f3ebb9407e6512687eee828b2d7489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 142/171] fix: color space of 1 bit gray TIFF images

---
 src/pdfmm/base/PdfImage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index abda442..48e003b 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -736,6 +736,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
                 info.Decode = std::move(decode);
+                info.ColorSpace = PdfColorSpace::DeviceGray;
             }
             else if (bitsPixel == 8 || bitsPixel == 16)
             {
@@ -756,6 +757,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
                 info.Decode = std::move(decode);
+                info.ColorSpace = PdfColorSpace::DeviceGray;
             }
             else if (bitsPixel == 8 || bitsPixel == 16)
             {
-- 
2.43.0


From 10d1fd90169335c15bc2cd0081d7ae70d645607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 143/171] fix: refuse to set image data with rows shorter than
 the pixels

---
 src/pdfmm/base/PdfImage.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 48e003b..06bcd3b 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -295,8 +295,6 @@ void PdfImage::SetData(const bufferview& buffer, unsigned width, unsigned height
 
 void PdfImage::SetData(InputStream& stream, unsigned width, unsigned height, PdfPixelFormat format, int rowSize)
 {
-    m_Width = width;
-    m_Height = height;
     PdfColorSpace colorSpace;
     unsigned defaultRowSize;
     unsigned pdfRowSize;
@@ -326,6 +324,9 @@ void PdfImage::SetData(InputStream& stream, unsigned width, unsigned height, Pdf
             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
     }
 
+    if (rowSize >= 0 && (unsigned)rowSize < pdfRowSize)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "The row size is too small");
+
     auto output = GetObject().GetOrCreateStream().GetOutputStream();
     charbuff lineBuffer(rowSize < 0 ? defaultRowSize : (unsigned)rowSize);
     if (needFetch)
@@ -347,6 +348,8 @@ void PdfImage::SetData(InputStream& stream, unsigned width, unsigned height, Pdf
         }
     }
 
+    m_Width = width;
+    m_Height = height;
     auto& dict = GetDictionary();
     dict.AddKey("Width", static_cast<int64_t>(width));
     dict.AddKey("Height", static_cast<int64_t>(height));
-- 
2.43.0


From 63605d948ada1b1320b5526aae84f04a9e1b8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 144/171] fix: decode images to buffers with a custom row size

---
 src/pdfmm/base/PdfImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 06bcd3b..f1f4f9c 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -51,7 +51,7 @@ PdfImage::PdfImage(PdfDocument& doc, const string_view& prefix)
 
 void PdfImage::DecodeTo(charbuff& buffer, PdfPixelFormat format, int rowSize) const
 {
-    buffer.resize(getBufferSize(format));
+    buffer.resize(rowSize < 0 ? getBufferSize(format) : (size_t)rowSize * m_Height);
     SpanStreamDevice stream(buffer);
     DecodeTo(stream, format, rowSize);
 }
-- 
2.43.0


From 10e42942d9c75ef54edb8ba2473afdb2898df6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 145/171] fix: bits per component and decode arrays of decoded
 images

---
 src/pdfmm/base/PdfImage.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index f1f4f9c..58f3785 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -41,6 +41,7 @@ static void LoadFromPngContent(PdfImage& image, png_structp png, png_infop info)
 #endif // PDFMM_HAVE_PNG_LIB
 
 static void checkImageData(const charbuff& data, unsigned width, unsigned height, unsigned pixelSize);
+static void applyDecodeArray(charbuff& data, const PdfDictionary& dict);
 static void fetchPDFScanLineRGB(unsigned char* dstScanLine,
     unsigned width, const unsigned char* srcScanLine, PdfPixelFormat srcPixelFormat);
 
@@ -76,6 +77,10 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
 
     if (mediaFilters.size() == 0)
     {
+        if (GetDictionary().FindKeyAs<int64_t>("BitsPerComponent", 8) != 8)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported bits per component");
+
+        applyDecodeArray(imageData, GetDictionary());
         switch (GetColorSpace())
         {
             case PdfColorSpace::DeviceRGB:
@@ -1377,6 +1382,30 @@ void checkImageData(const charbuff& data, unsigned width, unsigned height, unsig
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image data is too short");
 }
 
+// Map 8 bits samples as specified in the /Decode array, if present
+void applyDecodeArray(charbuff& data, const PdfDictionary& dict)
+{
+    auto decodeObj = dict.FindKey("Decode");
+    const PdfArray* decode;
+    if (decodeObj == nullptr || !decodeObj->TryGetArray(decode) || decode->GetSize() < 2)
+        return;
+
+    unsigned components = decode->GetSize() / 2;
+    for (unsigned i = 0; i < components; i++)
+    {
+        double min = (*decode)[i * 2].GetReal();
+        double max = (*decode)[i * 2 + 1].GetReal();
+        if (min == 0 && max == 1)
+            continue;
+
+        for (size_t k = i; k < data.size(); k += components)
+        {
+            double value = min * 255 + (unsigned char)data[k] * (max - min);
+            data[k] = (char)(unsigned char)std::round(std::clamp(value, 0.0, 255.0));
+        }
+    }
+}
+
 void fetchPDFScanLineRGB(unsigned char* dstScanLine, unsigned width, const unsigned char* srcScanLine, PdfPixelFormat srcPixelFormat)
 {
     switch (srcPixelFormat)
-- 
2.43.0


From 33e1f8465b2ff1bf8da452a91d13d61b90ed007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 146/171] fix: refuse soft masks with an unsupported size or
 depth

---
 src/pdfmm/base/PdfImage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 58f3785..6fb5a13 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -211,6 +211,12 @@ charbuff PdfImage::initScanLine(PdfPixelFormat format, int rowSize, charbuff& sm
                 unique_ptr<const PdfImage> smask;
                 if (PdfXObject::TryCreateFromObject(*smaskObj, smask))
                 {
+                    if (smask->GetWidth() != m_Width || smask->GetHeight() != m_Height
+                        || smask->GetDictionary().FindKeyAs<int64_t>("BitsPerComponent", 8) != 8)
+                    {
+                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported soft mask size or bits per component");
+                    }
+
                     smask->GetObject().MustGetStream().CopyTo(smaskData);
                     checkImageData(smaskData, m_Width, m_Height, 1);
                 }
-- 
2.43.0


From f56b3cb3a55c07d665e8359da89cca98eb89e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 147/171] fix: close TIFF handles exactly once

---
 src/pdfmm/base/PdfImage.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 6fb5a13..e950264 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -720,19 +720,16 @@ void PdfImage::loadFromTiffHandle(void* handle)
     // TODO: implement special cases
     if (TIFFIsTiled(hInTiffHandle))
     {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
     if (planarConfig != PLANARCONFIG_CONTIG && colorChannels != 1)
     {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
     if (orientation != ORIENTATION_TOPLEFT)
     {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
@@ -758,7 +755,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
             }
             else
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             break;
@@ -779,7 +775,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
             }
             else
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             break;
@@ -788,7 +783,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
         {
             if (bitsPixel != 24)
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             info.ColorSpace = PdfColorSpace::DeviceRGB;
@@ -798,7 +792,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
         {
             if (bitsPixel != 32)
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             info.ColorSpace = PdfColorSpace::DeviceCMYK;
@@ -843,7 +836,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
 
         default:
         {
-            TIFFClose(hInTiffHandle);
             PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             break;
         }
@@ -858,7 +850,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
             &buffer[row * scanlineSize],
             row) == (-1))
         {
-            TIFFClose(hInTiffHandle);
             PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
         }
     }
@@ -1020,7 +1011,17 @@ void PdfImage::loadFromTiffData(const unsigned char* data, size_t len)
     if (hInHandle == nullptr)
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
 
-    loadFromTiffHandle(hInHandle);
+    try
+    {
+        loadFromTiffHandle(hInHandle);
+    }
+    catch (...)
+    {
+        TIFFClose(hInHandle);
+        throw;
+    }
+
+    TIFFClose(hInHandle);
 }
 
 #endif // PDFMM_HAVE_TIFF_LIB
-- 
2.43.0


From a76df6c70b71761f4cc5d16d388cd5e5c73b8c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 148/171] fix: min-is-white TIFF images with more than 1 bit
 are inverted

---
 src/pdfmm/base/PdfImage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index e950264..e98a070 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -771,6 +771,8 @@ void PdfImage::loadFromTiffHandle(void* handle)
             }
             else if (bitsPixel == 8 || bitsPixel == 16)
             {
+                info.Decode.Add(static_cast<int64_t>(1));
+                info.Decode.Add(static_cast<int64_t>(0));
                 info.ColorSpace = PdfColorSpace::DeviceGray;
             }
             else
-- 
2.43.0


From c385bdfb64d7ec9aed90aedc698392dd3751cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 149/171] fix: byte order of 16 bits TIFF images

---
 src/pdfmm/base/PdfImage.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index e98a070..ec8535e 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -856,6 +856,13 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
     }
 
+#ifdef PDFMM_IS_LITTLE_ENDIAN
+    // Samples are read in native byte order, while
+    // they are big-endian in PDF images
+    if (bitsPerSample == 16)
+        TIFFSwabArrayOfShort((uint16*)buffer.data(), (tmsize_t)(bufferSize / 2));
+#endif
+
     SpanStreamDevice input(buffer);
     SetDataRaw(input, info);
 }
-- 
2.43.0


From 01aea40100db3439aa418320c1d950a88a5665da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 150/171] fix: refuse TIFF images with interleaved extra
 samples

---
 src/pdfmm/base/PdfImage.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index ec8535e..4aec692 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -728,6 +728,12 @@ void PdfImage::loadFromTiffHandle(void* handle)
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
+    // Extra samples would be interleaved with the color ones
+    if (planarConfig == PLANARCONFIG_CONTIG && extraSamples != 0)
+    {
+        PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+    }
+
     if (orientation != ORIENTATION_TOPLEFT)
     {
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
@@ -783,7 +789,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
         case PHOTOMETRIC_RGB:
         {
-            if (bitsPixel != 24)
+            if (bitsPerSample != 8 || colorChannels != 3)
             {
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
@@ -792,7 +798,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
         case PHOTOMETRIC_SEPARATED:
         {
-            if (bitsPixel != 32)
+            if (bitsPerSample != 8 || colorChannels != 4)
             {
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
-- 
2.43.0


From 3a67ab12d0c9f58fa3dc134e1eba67020e0d0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 151/171] fix: palettes of TIFF images

---
 src/pdfmm/base/PdfImage.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 4aec692..89efecf 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -807,7 +807,12 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
         case PHOTOMETRIC_PALETTE:
         {
-            unsigned numColors = (1 << bitsPixel);
+            if (bitsPerSample > 8 || colorChannels != 1)
+            {
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+            }
+
+            unsigned numColors = (1 << bitsPerSample);
 
             PdfArray decode;
             decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
@@ -817,7 +822,10 @@ void PdfImage::loadFromTiffHandle(void* handle)
             uint16* rgbRed;
             uint16* rgbGreen;
             uint16* rgbBlue;
-            TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue);
+            if (TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue) != 1)
+            {
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+            }
 
             charbuff data(numColors * 3);
 
-- 
2.43.0


From da9fb50f5c7693897512bba59ed5a1c588e48618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 152/171] fix: order of the pixels in palette PNG images with
 transparency

---
 src/pdfmm/base/PdfImage.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 89efecf..ae04f2d 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -1250,13 +1250,13 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
                             color = row[c];
                             break;
                         case 4:
-                            color = c % 2 ? row[c / 2] >> 4 : row[c / 2] & 0xF;
+                            color = (row[c / 2] >> (1 - c % 2) * 4) & 0xF;
                             break;
                         case 2:
-                            color = (row[c / 4] >> c % 4 * 2) & 3;
+                            color = (row[c / 4] >> (3 - c % 4) * 2) & 3;
                             break;
                         case 1:
-                            color = (row[c / 4] >> c % 8) & 1;
+                            color = (row[c / 8] >> (7 - c % 8)) & 1;
                             break;
                         default:
                             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
-- 
2.43.0


From 5a32175f160279b70a315298cdb6f365c55f4355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 153/171] fix: bits per component of the soft mask of PNG
 images

---
 src/pdfmm/base/PdfImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index ae04f2d..1d9fadf 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -1296,7 +1296,7 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
         PdfImageInfo smaksInfo;
         smaksInfo.Width = (unsigned)width;
         smaksInfo.Height = (unsigned)height;
-        smaksInfo.BitsPerComponent = (unsigned char)depth;
+        smaksInfo.BitsPerComponent = 8;
         smaksInfo.ColorSpace = PdfColorSpace::DeviceGray;
 
         auto smakeImage = image.GetDocument().CreateImage();
-- 
2.43.0


From c2980a6f73f3b6f8c4886ef0097299111b6a7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 154/171] fix: decode images with raw data set before they are
 saved

---
 src/pdfmm/base/PdfImage.cpp      | 4 +++-
 src/pdfmm/base/PdfObjectStream.h | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 1d9fadf..46240ef 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -402,7 +402,9 @@ void PdfImage::SetDataRaw(InputStream& stream, const PdfImageInfo& info)
         dict.AddKey("ColorSpace", arr);
     }
 
-    GetObject().GetOrCreateStream().SetData(stream, true);
+    auto& objStream = GetObject().GetOrCreateStream();
+    objStream.SetData(stream, true);
+    objStream.m_Filters = info.Filters;
 
     // If the filter list is supplied, set it now after stream writing
     if (info.Filters.size() == 1)
diff --git a/src/pdfmm/base/PdfObjectStream.h b/src/pdfmm/base/PdfObjectStream.h
index 07f8c0e..76ca9a8 100644
--- a/src/pdfmm/base/PdfObjectStream.h
+++ b/src/pdfmm/base/PdfObjectStream.h
@@ -88,6 +88,7 @@ class PDFMM_API PdfObjectStream final
     friend class PdfObjectInputStream;
     friend class PdfObjectOutputStream;
     friend class PdfImmediateWriter;
+    friend class PdfImage;
 
 private:
     /** Create a new PdfObjectStream object which has a parent PdfObject.
-- 
2.43.0


From 97584d78d8186e98ec7590e31303d5f8e9ba8cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:48 +0000
Subject: [PATCH 155/171] fix: reading TIFF images with an invalid height

---
 src/pdfmm/base/PdfImage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 46240ef..2ae174a 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -861,9 +861,12 @@ void PdfImage::loadFromTiffHandle(void* handle)
 
     size_t scanlineSize = TIFFScanlineSize(hInTiffHandle);
     size_t bufferSize = scanlineSize * height;
-    charbuff buffer(bufferSize);
+    // NOTE: The buffer grows with the rows, since the
+    // declared height may exceed the available data
+    charbuff buffer;
     for (row = 0; row < height; row++)
     {
+        buffer.resize((row + 1) * scanlineSize);
         if (TIFFReadScanline(hInTiffHandle,
             &buffer[row * scanlineSize],
             row) == (-1))
-- 
2.43.0


From 8bdfbfe82fbbc7504a91818d4c2108bfadc94ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:23 +0000
Subject: [PATCH 156/171] fix: missing include in XmlUtils.cpp

---
 src/pdfmm/private/XmlUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/private/XmlUtils.cpp b/src/pdfmm/private/XmlUtils.cpp
index 6ba1c88..dc0f892 100644
--- a/src/pdfmm/private/XmlUtils.cpp
+++ b/src/pdfmm/private/XmlUtils.cpp
@@ -7,6 +7,7 @@
 #include "PdfDeclarationsPrivate.h"
 #include "XmlUtils.h"
 #include <libxml/chvalid.h>
+#include <utfcpp/utf8.h>
 
 using namespace std;
 using namespace mm;
-- 
2.43.0


From b19ff408c0c3fddc07a785adf249291838aec34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:39 +0000
Subject: [PATCH 157/171] fix: saving again after signing overwrites the
 signature

---
 src/pdfmm/base/PdfMemDocument.cpp | 13 ++++++++++++
 src/pdfmm/base/PdfMemDocument.h   |  5 +++++
 src/pdfmm/base/PdfObject.h        |  1 +
 src/pdfmm/base/PdfSigner.cpp      | 34 +++++++++++++++++++++++++++----
 src/pdfmm/base/PdfWriter.cpp      |  1 +
 src/pdfmm/base/PdfWriter.h        |  5 +++++
 6 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index dccaac1..3bc046b 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -275,6 +275,18 @@ void PdfMemDocument::SaveUpdate(const string_view& filename, PdfSaveOptions opts
 }
 
 void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
+{
+    (void)saveUpdate(device, opts);
+}
+
+void PdfMemDocument::setUpdated(int64_t xrefOffset)
+{
+    m_PrevXRefOffset = xrefOffset;
+    for (auto obj : GetObjects())
+        obj->m_IsChanged = false;
+}
+
+int64_t PdfMemDocument::saveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
 {
     beforeWrite(opts);
 
@@ -301,6 +313,7 @@ void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
     {
         device.Seek(0, SeekDirection::End);
         writer.Write(device);
+        return writer.GetXRefOffset();
     }
     catch (PdfError& e)
     {
diff --git a/src/pdfmm/base/PdfMemDocument.h b/src/pdfmm/base/PdfMemDocument.h
index 71d94bd..13eeab2 100644
--- a/src/pdfmm/base/PdfMemDocument.h
+++ b/src/pdfmm/base/PdfMemDocument.h
@@ -36,6 +36,7 @@ class PdfWriter;
 class PDFMM_API PdfMemDocument final : public PdfDocument
 {
     friend class PdfWriter;
+    friend class PdfSigningSession;
 
 public:
     /** Construct a new PdfMemDocument
@@ -243,6 +244,10 @@ private:
 
     void beforeWrite(PdfSaveOptions options);
 
+    int64_t saveUpdate(OutputStreamDevice& device, PdfSaveOptions opts);
+
+    void setUpdated(int64_t xrefOffset);
+
 private:
     PdfMemDocument& operator=(const PdfMemDocument&) = delete;
 
diff --git a/src/pdfmm/base/PdfObject.h b/src/pdfmm/base/PdfObject.h
index b3a50e4..a761e47 100644
--- a/src/pdfmm/base/PdfObject.h
+++ b/src/pdfmm/base/PdfObject.h
@@ -42,6 +42,7 @@ class PDFMM_API PdfObject
     friend class PdfObjectStreamParser;
     friend class PdfParser;
     friend class PdfWriter;
+    friend class PdfMemDocument;
 
 public:
     static PdfObject Null;
diff --git a/src/pdfmm/base/PdfSigner.cpp b/src/pdfmm/base/PdfSigner.cpp
index 0979864..4d621b4 100644
--- a/src/pdfmm/base/PdfSigner.cpp
+++ b/src/pdfmm/base/PdfSigner.cpp
@@ -18,12 +18,29 @@ constexpr size_t BufferSize = 65536;
 static size_t readForSignature(StreamDevice& device,
     size_t conentsBeaconOffset, size_t conentsBeaconSize,
     char* buffer, size_t size);
-static void adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
+static PdfArray adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
     size_t conentsBeaconOffset, size_t conentsBeaconSize, charbuff& buffer);
 static void setSignature(StreamDevice& device, const string_view& sigData,
     size_t conentsBeaconOffset, charbuff& buffer);
 static void prepareBeaconsData(size_t signatureSize, string& contentsBeacon, string& byteRangeBeacon);
 
+namespace mm
+{
+    class PdfSigningSession
+    {
+    public:
+        static int64_t SaveUpdate(PdfMemDocument& doc, OutputStreamDevice& device, PdfSaveOptions opts)
+        {
+            return doc.saveUpdate(device, opts);
+        }
+
+        static void Finish(PdfMemDocument& doc, int64_t xrefOffset)
+        {
+            doc.setUpdated(xrefOffset);
+        }
+    };
+}
+
 PdfSigner::~PdfSigner() { }
 
 string PdfSigner::GetSignatureFilter() const
@@ -57,11 +74,11 @@ void mm::SignDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& sign
         acroForm->GetDictionary().RemoveKey("NeedAppearances");
     }
 
-    doc.SaveUpdate(device, opts);
+    int64_t xrefOffset = PdfSigningSession::SaveUpdate(doc, device, opts);
     device.Flush();
 
     charbuff buffer;
-    adjustByteRange(device, *beacons.ByteRangeOffset, *beacons.ContentsOffset,
+    auto byteRange = adjustByteRange(device, *beacons.ByteRangeOffset, *beacons.ContentsOffset,
         beacons.ContentsBeacon.size(), buffer);
     device.Flush();
 
@@ -86,6 +103,14 @@ void mm::SignDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& sign
     signatureBuf.resize(beaconSize);
     setSignature(device, signatureBuf, *beacons.ContentsOffset, buffer);
     device.Flush();
+
+    // Replace the beacons with the values that were written, and
+    // chain following updates to this one without writing again
+    // the signature
+    auto& dict = signature.GetDictionary().MustFindKey("V").GetDictionary();
+    dict.AddKey("ByteRange", PdfObject(std::move(byteRange)));
+    dict.AddKey(PdfName::KeyContents, PdfString::FromRaw(signatureBuf));
+    PdfSigningSession::Finish(doc, xrefOffset);
 }
 
 size_t readForSignature(StreamDevice& device, size_t conentsBeaconOffset, size_t conentsBeaconSize,
@@ -126,7 +151,7 @@ size_t readForSignature(StreamDevice& device, size_t conentsBeaconOffset, size_t
     return readSize + bufferSize;
 }
 
-void adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
+PdfArray adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
     size_t conentsBeaconOffset, size_t conentsBeaconSize, charbuff& buffer)
 {
     // Get final position
@@ -139,6 +164,7 @@ void adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
 
     device.Seek(byteRangeOffset);
     arr.Write(device, PdfWriteFlags::None, { }, buffer);
+    return arr;
 }
 
 void setSignature(StreamDevice& device, const string_view& contentsData,
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 75b3276..94b0267 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -134,6 +134,7 @@ void PdfWriter::Write(OutputStreamDevice& device)
             xRef->SetFirstEmptyBlock();
 
         xRef->Write(device, m_buffer);
+        m_XRefOffset = (int64_t)xRef->GetOffset();
 
         // Failures to write buffered data must be reported
         device.Flush();
diff --git a/src/pdfmm/base/PdfWriter.h b/src/pdfmm/base/PdfWriter.h
index b5c5782..a3a5143 100644
--- a/src/pdfmm/base/PdfWriter.h
+++ b/src/pdfmm/base/PdfWriter.h
@@ -114,6 +114,10 @@ public:
      */
     inline int64_t GetPrevXRefOffset() const { return m_PrevXRefOffset; }
 
+    /** \returns the offset of the XRef section that was written
+     */
+    inline int64_t GetXRefOffset() const { return m_XRefOffset; }
+
     /** Set the offset of the PDF header in an already existing file
      *  All offsets written are relative to it
      *
@@ -199,6 +203,7 @@ private:
     PdfString m_identifier;
     PdfString m_originalIdentifier; // used for incremental update
     int64_t m_PrevXRefOffset;
+    int64_t m_XRefOffset = -1;
     size_t m_HeaderOffset;
     bool m_IncrementalUpdate;
     bool m_rewriteXRefTable; // Only used if incremental update
-- 
2.43.0


From b447b4e1245b26698eb1cd1dad0428142e10e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:39 +0000
Subject: [PATCH 158/171] fix: signing a field with a null value

---
 src/pdfmm/base/PdfSignature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfSignature.cpp b/src/pdfmm/base/PdfSignature.cpp
index 0d36d43..46e3f3d 100644
--- a/src/pdfmm/base/PdfSignature.cpp
+++ b/src/pdfmm/base/PdfSignature.cpp
@@ -232,7 +232,7 @@ PdfObject* PdfSignature::getValueObject() const
 
 void PdfSignature::EnsureValueObject()
 {
-    if (m_ValueObj != nullptr)
+    if (m_ValueObj != nullptr && m_ValueObj->IsDictionary())
         return;
 
     m_ValueObj = &this->GetDocument().GetObjects().CreateDictionaryObject("Sig");
-- 
2.43.0


From 43e73f1ea65cfb9f89a62ecb8e73eae9ef539dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:39 +0000
Subject: [PATCH 159/171] fix: null pointer given to memcpy when reading AES
 data

---
 src/pdfmm/base/PdfEncrypt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index eaf1b46..f034548 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -307,7 +307,9 @@ protected:
         {
             // Hand out first the data that has been already decrypted
             size_t available = std::min(len - count, m_plainSize - m_plainOffset);
-            std::memcpy(buffer + count, m_plainBuffer.data() + m_plainOffset, available);
+            if (available != 0)
+                std::memcpy(buffer + count, m_plainBuffer.data() + m_plainOffset, available);
+
             count += available;
             m_plainOffset += available;
             if (m_plainOffset == m_plainSize && !decryptBlocks())
-- 
2.43.0


From d2781219d19c7e95d3ebfbf5307e322b79f04646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 160/171] fix: resources used by drawings replaced others of
 the same name, were missing on further pages, and had unescaped names

---
 src/pdfmm/base/PdfPainter.cpp | 47 ++++++++++++++++++++++++-----------
 src/pdfmm/base/PdfPainter.h   |  2 +-
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 7c6df66..232864f 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -173,22 +173,22 @@ void PdfPainter::finishDrawing()
 void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
 {
     checkStream();
-    this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    auto name = this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
+    m_tmpStream << "/Pattern CS /" << name.GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetShadingPattern(const PdfShadingPattern& pattern)
 {
     checkStream();
-    this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    auto name = this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
+    m_tmpStream << "/Pattern cs /" << name.GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const PdfTilingPattern& pattern)
 {
     checkStream();
-    this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    auto name = this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
+    m_tmpStream << "/Pattern CS /" << name.GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const string_view& patternName)
@@ -200,8 +200,8 @@ void PdfPainter::SetStrokingTilingPattern(const string_view& patternName)
 void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
 {
     checkStream();
-    this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    auto name = this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
+    m_tmpStream << "/Pattern cs /" << name.GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetTilingPattern(const string_view& patternName)
@@ -804,14 +804,14 @@ void PdfPainter::DrawXObject(const PdfXObject& obj, double x, double y, double s
 
     // use OriginalReference() as the XObject might have been written to disk
     // already and is not in memory anymore in this case.
-    this->addToPageResources("XObject", obj.GetIdentifier(), obj.GetObject());
+    auto name = this->addToPageResources("XObject", obj.GetIdentifier(), obj.GetObject());
 
     m_tmpStream << "q" << endl
         << scaleX << " 0 0 "
         << scaleY << " "
         << x << " "
         << y << " cm" << endl
-        << "/" << obj.GetIdentifier().GetString() << " Do" << endl << "Q" << endl;
+        << "/" << name.GetEscapedName() << " Do" << endl << "Q" << endl;
 }
 
 void PdfPainter::ClosePath()
@@ -1189,8 +1189,8 @@ unsigned short PdfPainter::GetPrecision() const
 void PdfPainter::SetExtGState(const PdfExtGState& inGState)
 {
     checkStream();
-    this->addToPageResources("ExtGState", inGState.GetIdentifier(), inGState.GetObject());
-    m_tmpStream << "/" << inGState.GetIdentifier().GetString()
+    auto name = this->addToPageResources("ExtGState", inGState.GetIdentifier(), inGState.GetObject());
+    m_tmpStream << "/" << name.GetEscapedName()
         << " gs" << endl;
 }
 
@@ -1212,12 +1212,28 @@ void PdfPainter::EndMarkedContext()
 }
 
 
-void PdfPainter::addToPageResources(const PdfName& type, const PdfName& identifier, const PdfObject& obj)
+PdfName PdfPainter::addToPageResources(const PdfName& type, const PdfName& identifier, const PdfObject& obj)
 {
     if (m_canvas == nullptr)
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
 
-    m_canvas->GetOrCreateResources().AddResource(type, identifier, obj);
+    // Don't replace another resource that has the same name
+    auto& resources = m_canvas->GetOrCreateResources();
+    PdfName name = identifier;
+    for (unsigned i = 1; ; i++)
+    {
+        auto existing = resources.GetResource(type.GetString(), name.GetString());
+        if (existing == nullptr || existing->IsNull() || existing == &obj
+            || (existing->IsIndirect() && existing->GetIndirectReference() == obj.GetIndirectReference()))
+        {
+            break;
+        }
+
+        name = PdfName(string(identifier.GetString()) + "_" + std::to_string(i));
+    }
+
+    resources.AddResource(type, name, obj);
+    return name;
 }
 
 void PdfPainter::convertRectToBezier(double x, double y, double width, double height, double pointsX[], double pointsY[])
@@ -1443,7 +1459,8 @@ void PdfPainter::SetFont(const PdfFont* font, double fontSize)
 void PdfPainter::setFont(const PdfFont* font, double fontSize)
 {
     checkStream();
-    m_tmpStream << "/" << font->GetIdentifier().GetString()
+    auto name = this->addToPageResources("Font", font->GetIdentifier(), font->GetObject());
+    m_tmpStream << "/" << name.GetEscapedName()
         << " " << fontSize
         << " Tf" << endl;
 }
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 12a969c..80aac68 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -713,7 +713,7 @@ private:
      *  \param name identifier of this object, e.g. /Ft0
      *  \param obj the object you want to register
      */
-    void addToPageResources(const PdfName& type, const PdfName& identifier, const PdfObject& obj);
+    PdfName addToPageResources(const PdfName& type, const PdfName& identifier, const PdfObject& obj);
 
     void drawTextAligned(const std::string_view& str, double x, double y, double width, PdfHorizontalAlignment hAlignment);
 
-- 
2.43.0


From 26bfbce462f9530f3500a7448d5de67cc74f01dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 161/171] fix: font and text state set before BeginText were
 not written

---
 src/pdfmm/base/PdfPainter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 232864f..4ea4f77 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -493,6 +493,7 @@ void PdfPainter::BeginText(double x, double y)
     checkTextModeClosed();
 
     m_tmpStream << "BT" << endl;
+    writeTextState();
     m_tmpStream << x << " " << y << " Td" << endl;
     m_isTextOpen = true;
 }
-- 
2.43.0


From dee76d050aa194133917619e940b35208df31142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 162/171] fix: text state parameters set back to their default
 were not written

---
 src/pdfmm/base/PdfPainter.cpp | 12 ++++++++----
 src/pdfmm/base/PdfPainter.h   |  7 +++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 4ea4f77..a87b5f4 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1434,16 +1434,16 @@ void PdfPainter::writeTextState()
     if (m_TextState.Font != nullptr)
         setFont(m_TextState.Font, m_TextState.FontSize);
 
-    if (m_TextState.FontScale != 1)
+    if (m_hasFontScale || m_TextState.FontScale != 1)
         setFontScale(m_TextState.FontScale);
 
-    if (m_TextState.CharSpacing != 0)
+    if (m_hasCharSpacing || m_TextState.CharSpacing != 0)
         setCharSpacing(m_TextState.CharSpacing);
 
-    if (m_TextState.WordSpacing != 0)
+    if (m_hasWordSpacing || m_TextState.WordSpacing != 0)
         setWordSpacing(m_TextState.WordSpacing);
 
-    if (m_TextState.RenderingMode != PdfTextRenderingMode::Fill)
+    if (m_hasTextRenderingMode || m_TextState.RenderingMode != PdfTextRenderingMode::Fill)
         setTextRenderingMode(m_TextState.RenderingMode);
 }
 
@@ -1468,6 +1468,7 @@ void PdfPainter::setFont(const PdfFont* font, double fontSize)
 
 void PdfPainter::SetFontScale(double value)
 {
+    m_hasFontScale = true;
     if (m_isTextOpen)
         setFontScale(value);
 }
@@ -1480,6 +1481,7 @@ void PdfPainter::setFontScale(double value)
 
 void PdfPainter::SetCharSpacing(double value)
 {
+    m_hasCharSpacing = true;
     if (m_isTextOpen)
         setCharSpacing(value);
 }
@@ -1492,6 +1494,7 @@ void PdfPainter::setCharSpacing(double value)
 
 void PdfPainter::SetWordSpacing(double value)
 {
+    m_hasWordSpacing = true;
     if (m_isTextOpen)
         setWordSpacing(value);
 }
@@ -1504,6 +1507,7 @@ void PdfPainter::setWordSpacing(double value)
 
 void PdfPainter::SetTextRenderingMode(PdfTextRenderingMode value)
 {
+    m_hasTextRenderingMode = true;
     if (m_isTextOpen)
         setTextRenderingMode(value);
 }
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 80aac68..cd431c5 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -770,6 +770,13 @@ private:
      */
     bool m_isTextOpen;
 
+    // True if the parameter was ever set. It may have been
+    // written, so the default value has to be written as well
+    bool m_hasFontScale = false;
+    bool m_hasCharSpacing = false;
+    bool m_hasWordSpacing = false;
+    bool m_hasTextRenderingMode = false;
+
     /** temporary stream buffer
      */
     PdfStringStream  m_tmpStream;
-- 
2.43.0


From 881839b96d566b62314117fdb34370916874d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 163/171] fix: graphics state parameters that were set were not
 always written

---
 src/pdfmm/base/PdfPainter.cpp | 34 +++++++++++++---------------------
 src/pdfmm/base/PdfPainter.h   |  1 +
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index a87b5f4..b472946 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -168,6 +168,10 @@ void PdfPainter::finishDrawing()
 
     // Reset temporary stream
     m_tmpStream.Clear();
+
+    // The next session starts from the initial matrix
+    m_GraphicsState.CTM = Matrix();
+    m_savedCTMs.clear();
 }
 
 void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
@@ -1168,12 +1172,18 @@ void PdfPainter::Save()
 {
     checkStream();
     m_tmpStream << "q" << endl;
+    m_savedCTMs.push_back(m_GraphicsState.CTM);
 }
 
 void PdfPainter::Restore()
 {
     checkStream();
     m_tmpStream << "Q" << endl;
+    if (!m_savedCTMs.empty())
+    {
+        m_GraphicsState.CTM = m_savedCTMs.back();
+        m_savedCTMs.pop_back();
+    }
 }
 
 
@@ -1595,65 +1605,47 @@ void PdfGraphicsStateWrapper::SetCurrentMatrix(const Matrix& matrix)
     m_painter->SetTransformationMatrix(m_state->CTM);
 }
 
+// NOTE: The value set before may be no more current, because of a Restore()
+// or because it was set in another painting session, or it can be different
+// than the initial value of the canvas, so always write the operators
 void PdfGraphicsStateWrapper::SetLineWidth(double lineWidth)
 {
-    if (m_state->LineWidth == lineWidth)
-        return;
-
     m_state->LineWidth = lineWidth;
     m_painter->SetLineWidth(m_state->LineWidth);
 }
 
 void PdfGraphicsStateWrapper::SetMiterLevel(double value)
 {
-    if (m_state->MiterLimit == value)
-        return;
-
     m_state->MiterLimit = value;
     m_painter->SetMiterLimit(m_state->MiterLimit);
 }
 
 void PdfGraphicsStateWrapper::SetLineCapStyle(PdfLineCapStyle capStyle)
 {
-    if (m_state->LineCapStyle == capStyle)
-        return;
-
     m_state->LineCapStyle = capStyle;
     m_painter->SetLineCapStyle(m_state->LineCapStyle);
 }
 
 void PdfGraphicsStateWrapper::SetLineJoinStyle(PdfLineJoinStyle joinStyle)
 {
-    if (m_state->LineJoinStyle == joinStyle)
-        return;
-
     m_state->LineJoinStyle = joinStyle;
     m_painter->SetLineJoinStyle(m_state->LineJoinStyle);
 }
 
 void PdfGraphicsStateWrapper::SetRenderingIntent(const string_view& intent)
 {
-    if (m_state->RenderingIntent == intent)
-        return;
-
     m_state->RenderingIntent = intent;
     m_painter->SetRenderingIntent(m_state->RenderingIntent);
 }
 
 void PdfGraphicsStateWrapper::SetFillColor(const PdfColor& color)
 {
-    if (m_state->FillColor == color)
-        return;
-
     m_state->FillColor = color;
     m_painter->SetFillColor(m_state->FillColor);
 }
 
 void PdfGraphicsStateWrapper::SetStrokeColor(const PdfColor& color)
 {
-    if (m_state->StrokeColor == color)
-        return;
-
     m_state->StrokeColor = color;
     m_painter->SetStrokeColor(m_state->StrokeColor);
 }
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index cd431c5..71c272d 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -757,6 +757,7 @@ private:
     PdfCanvas* m_canvas;
 
     PdfGraphicsState m_GraphicsState;
+    std::vector<Matrix> m_savedCTMs;
     PdfTextState m_TextState;
     PdfGraphicsStateWrapper m_PainterGraphicsState;
     PdfTextStateWrapper m_PainterTextState;
-- 
2.43.0


From 1b18afa130058328794e83b7bf5886e1b49147c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 164/171] fix: graphics state saved inside of text objects

---
 src/pdfmm/base/PdfPainter.cpp | 16 +++++++++-------
 src/pdfmm/base/PdfPainter.h   |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index b472946..044375a 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -549,10 +549,17 @@ void PdfPainter::DrawMultiLineText(const string_view& str, double x, double y, d
     if (width <= 0.0 || height <= 0.0) // nonsense arguments
         return;
 
+    // NOTE: The graphics state can't be saved and
+    // the clip can't be set inside a text object
+    this->Save();
+    if (clip)
+        this->SetClipRect(x, y, width, height);
+
     m_tmpStream << "BT" << endl;
     writeTextState();
-    drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, clip, skipSpaces);
+    drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, skipSpaces);
     m_tmpStream << "ET" << endl;
+    this->Restore();
 }
 
 void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, double width, PdfHorizontalAlignment hAlignment)
@@ -570,14 +577,10 @@ void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, dou
     m_tmpStream << "ET" << endl;
 }
 
-void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double y, double width, double height, PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool clip, bool skipSpaces)
+void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double y, double width, double height, PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool skipSpaces)
 {
     auto& font = *m_TextState.Font;
 
-    this->Save();
-    if (clip)
-        this->SetClipRect(x, y, width, height);
-
     auto expanded = this->expandTabs(str);
 
     vector<string> lines = getMultiLineTextAsLines(expanded, width, skipSpaces);
@@ -607,7 +610,6 @@ void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double
         y -= font.GetLineSpacing(m_TextState);
         it++;
     }
-    this->Restore();
 }
 
 // FIX-ME/CLEAN-ME: The following was found
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 71c272d..d1cfc19 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -720,7 +720,7 @@ private:
     void drawText(const std::string_view& str, double x, double y, bool isUnderline, bool isStrikeOut);
 
     void drawMultiLineText(const std::string_view& str, double x, double y, double width, double height,
-        PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool clip, bool skipSpaces);
+        PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool skipSpaces);
 
     void internalArc(double x, double y, double ray, double ang1, double ang2, bool contFlg);
 
-- 
2.43.0


From 61cd7ceba7dfd51c8799521d403b97a48d7ff927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 165/171] fix: marked contents at the begin of drawings were
 lost

---
 src/pdfmm/base/PdfPainter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 044375a..9b95e10 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1216,11 +1216,13 @@ void PdfPainter::Rectangle(const PdfRect& rect, double roundX, double roundY)
 
 void PdfPainter::BeginMarkedContext(const string_view& tag)
 {
+    checkStream();
     m_tmpStream << '/' << tag << " BMC" << endl;
 }
 
 void PdfPainter::EndMarkedContext()
 {
+    checkStream();
     m_tmpStream << "EMC" << endl;
 }
 
-- 
2.43.0


From 83db385ff6cea5e9605ee407e2e0ffe8be450f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 166/171] fix: drawing again on a form overwrote or duplicated
 its contents

---
 src/pdfmm/base/PdfPainter.cpp | 37 ++++++++++++-----------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 9b95e10..a4ade2a 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -119,38 +119,27 @@ void PdfPainter::finishDrawing()
 {
     if (m_stream != nullptr)
     {
-        PdfObjectOutputStream output;
-        if ((m_flags & PdfPainterFlags::NoSaveRestorePrior) == PdfPainterFlags::NoSaveRestorePrior)
+        // There may already be contents in the stream. Read
+        // them before overwriting the stream
+        charbuff buffer;
+        if (m_stream->GetLength() != 0)
+            m_stream->CopyTo(buffer);
+
+        auto output = m_stream->GetOutputStream();
+        if (buffer.size() != 0)
         {
-            // GetLength() must be called before BeginAppend()
-            if (m_stream->GetLength() == 0)
+            // NOTE: The contents may end with a comment, or
+            // without a white space
+            if ((m_flags & PdfPainterFlags::NoSaveRestorePrior) == PdfPainterFlags::NoSaveRestorePrior)
             {
-                output = m_stream->GetOutputStream();
-            }
-            else
-            {
-                output = m_stream->GetOutputStream();
-                // there is already content here - so let's assume we are appending
-                // as such, we MUST put in a "space" to separate whatever we do.
+                output.Write(buffer);
                 output.Write("\n");
             }
-        }
-        else
-        {
-            charbuff buffer;
-            if (m_stream->GetLength() != 0)
-                m_stream->CopyTo(buffer);
-
-            if (buffer.size() == 0)
-            {
-                output = m_stream->GetOutputStream();
-            }
             else
             {
-                output = m_stream->GetOutputStream(true);
                 output.Write("q\n");
                 output.Write(buffer);
-                output.Write("Q\n");
+                output.Write("\nQ\n");
             }
         }
 
-- 
2.43.0


From d824acf6790ef99819738dd1540669004c9532f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 167/171] fix: tabs were not replaced by spaces

---
 src/pdfmm/base/PdfPainter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index a4ade2a..6db57c3 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1579,8 +1579,8 @@ string expandTabs(const string_view& str, unsigned tabWidth, unsigned tabCount)
         char32_t ch = (char32_t)utf8::next(it, end);
         if (ch == U'\t')
             ret.append(tabWidth, ' ');
-
-        utf8::append(ch, ret);
+        else
+            utf8::append(ch, ret);
     }
 
     return ret;
-- 
2.43.0


From 233e6e0ccf779cabf60d7d63e2b0a21f2d071288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 168/171] fix: conversion of separation alternate colors to
 samples

---
 src/pdfmm/base/PdfColor.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index b4563d6..32f5e53 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -902,7 +902,7 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
                 {
                     char data[1 * 2];
                     data[0] = 0;
-                    data[1] = static_cast<char> (m_Color.gray);
+                    data[1] = static_cast<char>(static_cast<unsigned char>(m_Color.gray * 255));
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
@@ -931,9 +931,9 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
                     data[0] = 0;
                     data[1] = 0;
                     data[2] = 0;
-                    data[3] = static_cast<char> (m_Color.rgb[0] * 255);
-                    data[4] = static_cast<char> (m_Color.rgb[1] * 255);
-                    data[5] = static_cast<char> (m_Color.rgb[2] * 255);
+                    data[3] = static_cast<char>(static_cast<unsigned char>(m_Color.rgb[0] * 255));
+                    data[4] = static_cast<char>(static_cast<unsigned char>(m_Color.rgb[1] * 255));
+                    data[5] = static_cast<char>(static_cast<unsigned char>(m_Color.rgb[2] * 255));
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
@@ -967,10 +967,10 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
                     data[1] = 0;
                     data[2] = 0;
                     data[3] = 0;
-                    data[4] = static_cast<char> (m_Color.cmyk[0] * 255);
-                    data[5] = static_cast<char> (m_Color.cmyk[1] * 255);
-                    data[6] = static_cast<char> (m_Color.cmyk[2] * 255);
-                    data[7] = static_cast<char> (m_Color.cmyk[3] * 255);
+                    data[4] = static_cast<char>(static_cast<unsigned char>(m_Color.cmyk[0] * 255));
+                    data[5] = static_cast<char>(static_cast<unsigned char>(m_Color.cmyk[1] * 255));
+                    data[6] = static_cast<char>(static_cast<unsigned char>(m_Color.cmyk[2] * 255));
+                    data[7] = static_cast<char>(static_cast<unsigned char>(m_Color.cmyk[3] * 255));
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
@@ -1005,9 +1005,9 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
                     data[0] = 0;
                     data[1] = 0;
                     data[2] = 0;
-                    data[3] = static_cast<char> (m_Color.lab[0] * 255);
-                    data[4] = static_cast<char> (m_Color.lab[1] * 255);
-                    data[5] = static_cast<char> (m_Color.lab[2] * 255);
+                    data[3] = static_cast<char>(static_cast<unsigned char>(m_Color.lab[0] * 255));
+                    data[4] = static_cast<char>(static_cast<unsigned char>(m_Color.lab[1] * 255));
+                    data[5] = static_cast<char>(static_cast<unsigned char>(m_Color.lab[2] * 255));
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
-- 
2.43.0


From 5d58c0619b724eb35ad5339fad851b1a6e84281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 169/171] fix: contents of painters in use were dropped when
 another one draws on the same page

---
 src/pdfmm/base/PdfContents.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/pdfmm/base/PdfContents.cpp b/src/pdfmm/base/PdfContents.cpp
index db168aa..e3e6b6b 100644
--- a/src/pdfmm/base/PdfContents.cpp
+++ b/src/pdfmm/base/PdfContents.cpp
@@ -101,23 +101,24 @@ PdfObjectStream & PdfContents::GetStreamForAppending(PdfStreamAppendFlags flags)
 
     if ((flags & PdfStreamAppendFlags::NoSaveRestorePrior) == PdfStreamAppendFlags::None)
     {
-        // Record all content and readd into a new stream that
-        // substitue all the previous streams
-        charbuff buffer;
-        BufferStreamDevice device(buffer);
-        copyTo(device, *arr);
+        // NOTE: Existing streams must be kept, also if they are
+        // empty, as they may be still in use by other painters
+        bool hasStream = false;
+        for (unsigned i = 0; i < arr->GetSize() && !hasStream; i++)
+        {
+            auto streamObj = arr->FindAt(i);
+            hasStream = streamObj != nullptr && streamObj->GetStream() != nullptr;
+        }
 
-        if (buffer.size() != 0)
+        if (hasStream)
         {
-            arr->Clear();
-            auto& newobj = m_parent->GetDocument().GetObjects().CreateDictionaryObject();
-            arr->AddIndirect(newobj);
-            auto &stream = newobj.GetOrCreateStream();
-            auto output = stream.GetOutputStream();
-            output.Write("q\n");
-            output.Write(buffer);
-            // TODO: Avoid adding unuseful \n prior Q
-            output.Write("\nQ");
+            auto& objects = m_parent->GetDocument().GetObjects();
+            auto& save = objects.CreateDictionaryObject();
+            save.GetOrCreateStream().SetData(std::string_view("q"));
+            arr->insert(arr->begin(), save.GetIndirectReference());
+            auto& restore = objects.CreateDictionaryObject();
+            restore.GetOrCreateStream().SetData(std::string_view("Q"));
+            arr->Add(restore.GetIndirectReference());
         }
     }
 
-- 
2.43.0


From d1ce4c84e78a8b867fdc979c2f8f8508cf648aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:29 +0000
Subject: [PATCH 170/171] fix: drawing on pages with null contents

---
 src/pdfmm/base/PdfPage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 979f056..61cb93a 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -38,7 +38,8 @@ PdfPage::PdfPage(PdfObject& obj, unsigned index, const deque<PdfObject*>& listOf
     m_Annotations(*this)
 {
     PdfObject* contents = obj.GetDictionary().FindKey("Contents");
-    if (contents != nullptr)
+    // NOTE: A null value is equivalent to an absent entry
+    if (contents != nullptr && !contents->IsNull())
         m_Contents.reset(new PdfContents(*this, *contents));
 }
 
-- 
2.43.0


From 06f640852590fb19dc85d4aa345e1088cd52daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:22 +0000
Subject: [PATCH 171/171] fix: entries of an inline image's dictionary leaked
 into the next one

---
 src/pdfmm/base/PdfContentsReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index aca98ae..75bcf38 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -277,6 +277,8 @@ bool PdfContentsReader::tryHandleOperator(PdfContent& content)
 // Returns false in case of EOF
 bool PdfContentsReader::tryReadInlineImgDict(PdfContent& content)
 {
+    // The dictionary may still hold the entries of a previous image
+    content.InlineImageDictionary.Clear();
     while (true)
     {
         if (!m_tokenizer.TryReadNext(*m_inputs.back().Device, m_temp.PsType, m_temp.Keyword, m_temp.Variant))
-- 
2.43.0

