From 39a69a98d883ee97f138611a61fc5f91483ea260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 01/28] hook: hide ill-formed unused setKey under LIBENI_VERIFY
 so clang accepts the header

---
 include/eni/adt/StringHashTable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 138b396..b174c38 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -34,7 +34,9 @@ public:
 
   key_type key() const { return std::string(m_Key, m_KeyLen); }
 
+#ifndef LIBENI_VERIFY // ill-formed member, rejected by clang even when unused
   void setKey(const key_type& pKey) { m_Key = pKey; }
+#endif
 
   const value_type& value() const { return m_Value; }
 
-- 
2.43.0


From 87f9f53549185e8ee9edab37cacaada117b95f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 02/28] fix: bound keyword match by the text, not by the
 pattern's address

---
 include/eni/json/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 20cd201..8231840 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -260,7 +260,7 @@ private:
   bool have(const char *pPat) {
     int i = 0;
     for(; pPat[i] != '\0'; ++i){
-      if((m_End <= pPat+i) || (pPat[i] != m_It[i])) return 0;
+      if((m_End <= m_It+i) || (pPat[i] != m_It[i])) return 0;
     }
     m_It += i;
     return 1;
-- 
2.43.0


From 6396f330dde3331f3d2824f60ab879cb177324f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 03/28] fix: StringMap assignment operators must return the map

---
 include/eni/adt/StringMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/StringMap.h b/include/eni/adt/StringMap.h
index 4ee8814..f755b85 100644
--- a/include/eni/adt/StringMap.h
+++ b/include/eni/adt/StringMap.h
@@ -49,10 +49,12 @@ public:
 
   StringMap& operator=(const StringMap& pCopy) {
     super::operator=(pCopy);
+    return *this;
   }
 
   StringMap& operator=(StringMap&& pOther) {
     super::operator=(pOther);
+    return *this;
   }
 
   value_type& at(const key_type& pKey) {
-- 
2.43.0


From c30d02d04aaa7ec73c661920d49aedcc986c04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 04/28] fix: PointerIterator assignment must return the
 iterator

---
 include/eni/adt/bits/PointerIterator.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 5771e0a..9ee7eff 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -24,6 +24,7 @@ template<typename ItemType> typename PointerIterator<ItemType>::iterator&
 PointerIterator<ItemType>::operator=(const_iterator& pOther)
 {
   m_Ptr = pOther.m_Ptr;
+  return *this;
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::reference
-- 
2.43.0


From 44d4df6080b31f22b1d30de265c3c4dafc0fd0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 05/28] fix: Vector::erase must accept ranges ending at the
 last element

---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 05b6c30..0506b6e 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -342,7 +342,7 @@ Vector<ElementType>::erase(size_type pIndex)
 template<class ElementType> void
 Vector<ElementType>::erase(size_type pFirst, size_type pLast)
 {
-  if (0 > pFirst || pFirst >= pLast || pLast >= size())
+  if (0 > pFirst || pFirst >= pLast || pLast > size())
     throw OutOfRange<InvalidVectorIndex>();
   size_type eraseSize = pLast - pFirst;
   std::copy(m_Data + pLast, m_Data + size(), m_Data + pFirst);
-- 
2.43.0


From f3942af6ae3a94691a301f8b46311124f11096f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 06/28] fix: Vector sizes beyond the address space report a
 length error instead of overflowing

---
 include/eni/adt/bits/Vector.tcc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 0506b6e..1474853 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -13,12 +13,16 @@ Vector<ElementType>::Vector()
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize)
   : m_DataSize(pSize), m_AllocSize(pSize) {
+  if (pSize > max_size())
+    throw LengthError<InvalidVectorSize>();
   m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize, const_reference pValue)
   : m_DataSize(pSize), m_AllocSize(pSize) {
+  if (pSize > max_size())
+    throw LengthError<InvalidVectorSize>();
   m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
   std::fill_n(m_Data, m_DataSize, pValue);
 }
@@ -97,7 +101,7 @@ Vector<ElementType>::size() const
 template<class ElementType> typename Vector<ElementType>::size_type
 Vector<ElementType>::max_size() const
 {
-  return std::numeric_limits<size_t>::max();
+  return std::numeric_limits<difference_type>::max() / sizeof(ElementType);
 }
 
 template<class ElementType> void
@@ -290,6 +294,8 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  if (pSize > max_size() - size())
+    throw LengthError<InvalidVectorSize>();
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
-- 
2.43.0


From 79ff758374497faaaa392cbaaa5301f256546fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 07/28] fix: Vector operations must tolerate arguments
 referring to their own elements

---
 include/eni/adt/bits/Vector.tcc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 1474853..71a770f 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -113,9 +113,10 @@ Vector<ElementType>::resize(size_type pSize)
 template<class ElementType> void
 Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
 {
+  const value_type value(pValue); //< pValue may refer to an element
   reserve(pSize);
   if (pSize > m_DataSize)
-    std::fill_n(end(), pSize - m_DataSize, pValue);
+    std::fill_n(end(), pSize - m_DataSize, value);
   m_DataSize = pSize;
 }
 
@@ -212,8 +213,9 @@ Vector<ElementType>::data()
 template<class ElementType> void
 Vector<ElementType>::assign(size_type pSize, const_reference pValue)
 {
+  const value_type value(pValue); //< pValue may refer to an element
   resize(pSize);
-  std::fill_n(m_Data, pSize, pValue);
+  std::fill_n(m_Data, pSize, value);
 }
 
 template<class ElementType> void
@@ -232,8 +234,9 @@ Vector<ElementType>::assign(initializer_list pIList)
 template<class ElementType> void
 Vector<ElementType>::push_back(const_reference pValue)
 {
+  const value_type value(pValue); //< pValue may refer to an element
   reserve(size() + 1);
-  m_Data[m_DataSize++] = pValue;
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::value_type
@@ -246,8 +249,9 @@ template<class ElementType>
 template<class ...Args> void
 Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
+  const value_type value(std::forward<Args>(pArgs)...);
   reserve(size() + 1);
-  m_Data[m_DataSize++] = *(new ElementType(std::forward<Args>(pArgs)...));
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
@@ -296,11 +300,12 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   }
   if (pSize > max_size() - size())
     throw LengthError<InvalidVectorSize>();
+  const value_type value(pValue); //< pValue may refer to an element
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - pSize, end);
-  std::fill_n(ptr, pSize, pValue);
+  std::fill_n(ptr, pSize, value);
 }
 
 template<class ElementType> void
-- 
2.43.0


From 876f06702524d56a59e77376cb47f3368a753009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 08/28] fix: copying a hash table without buckets must not
 create a zero-sized bucket array

---
 include/eni/adt/bits/HashBase.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 2b4a2a6..59e0276 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -63,6 +63,8 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
     m_NumOfEntries(pCopy.m_NumOfEntries),
     m_NumOfTombstones(pCopy.m_NumOfTombstones) {
 
+  if (!pCopy.isInit())
+    return;
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
@@ -97,6 +99,8 @@ TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(const TableImpl& pCopy)
   m_NumOfEntries = pCopy.m_NumOfEntries;
   m_NumOfTombstones = pCopy.m_NumOfTombstones;
 
+  if (!pCopy.isInit())
+    return *this;
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
-- 
2.43.0


From 4498f93faa12f467b83919433e40d01088fcb164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 09/28] fix: hash table self-assignment must keep the contents

---
 include/eni/adt/bits/HashTable.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 7a203c9..c7634fe 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -56,6 +56,8 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
 {
+  if (this == &pCopy)
+    return *this;
 
   internal::TableImpl<K, V, H>::operator=(pCopy);
 
-- 
2.43.0


From 88745bc2cc41208d7e1c13d482b9ea95ad3cfc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 10/28] fix: chain iteration must skip empty buckets and tables
 without buckets

---
 include/eni/adt/bits/HashIterator.tcc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 939e97a..2770046 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -16,14 +16,19 @@ ChainIterBase<HT>::ChainIterBase()
 template<typename HT>
 ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   : m_pHashTable(pTable) {
+  if (0 == m_pHashTable->numOfBuckets()) {
+    reset();
+    return;
+  }
   typename HT::hasher_type hasher;
   m_HashValue = hasher(pKey);
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
     bucket_type &bucket = m_pHashTable->bucket(m_Index);
-    if (hash_table::Tombstone() == bucket.entry) {
-      // Ignore tombstones.
+    if (hash_table::Tombstone() == bucket.entry ||
+        hash_table::EmptyBucket() == bucket.entry) {
+      // Ignore tombstones and empty buckets.
     }
     else if (m_HashValue == bucket.hash) {
       if (bucket.entry->key() == pKey) {
-- 
2.43.0


From 8e06e0794644ecdf48555a386fecebefdcf38af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 11/28] fix: string entries must keep the full key length

---
 include/eni/adt/StringHashTable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index b174c38..adac2bd 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -47,7 +47,7 @@ public:
 protected:
   value_type m_Value;
 
-  uint16_t m_KeyLen;
+  size_t m_KeyLen;
 
   char m_Key[];
 };
-- 
2.43.0


From d7d7930542e613e7708a590d07637511044b0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 12/28] fix: indexing a non-container must yield the undefined
 value, not an integer

---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 1b428b9..2594e05 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -14,7 +14,7 @@
 using namespace eni;
 using namespace json;
 
-static Value g_NullValue(UNDEF); // XXX
+static Value g_NullValue; // undefined
 
 Value::Value(const Value& pCopy)
   : Notation(pCopy) {
-- 
2.43.0


From 73c5eb573ae4949a4ea6bbf93c9066631f53415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 13/28] fix: object keys must be printed as JSON strings

---
 lib/json/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 24c388c..0245afe 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -33,7 +33,8 @@ void Object::print(std::ostream& pOs) const {
       pOs << ',';
     else
       first = false;
-    pOs << it->key() << ':';
+    Value(it->key()).print(pOs);
+    pOs << ':';
     it->value().print(pOs);
   }
   pOs << '\n';
-- 
2.43.0


From 1825ed1938d1f4822b0244ef1387b6ca81b5ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 14/28] fix: reject arguments that are not a JSON array

---
 include/eni/eni.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 0153398..6c1c420 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -68,7 +68,7 @@ public:
 private:
   bool check(const json::Value& pArgs) {
     if (!m_Parsed) {
-      m_ParseSuccess = parse(pArgs.toArray());
+      m_ParseSuccess = pArgs.isArray() && parse(pArgs.toArray());
       m_Parsed = true;
     }
     return m_ParseSuccess;
-- 
2.43.0


From 9e9e767988af75290b4e6147af55ba322aa46237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 15/28] fix: reverse must reject missing or non-string
 arguments

---
 examples/eni/reverse/eni_reverse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 1148465..1d294d1 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,6 +15,8 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
+    if (pArgs.size() < 1 || !pArgs[0].isString())
+      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
-- 
2.43.0


From 047154455985659c4524bc1fbc63e0a80649f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 16/28] fix: scrypt must reject missing or non-string arguments

---
 tools/eni_scrypt/eni_scrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 7f543a5..404c91d 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -12,6 +12,8 @@
 
 bool Scrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 1 || !pArgs[0].isString())
+    return false;
   m_Str = pArgs[0].toString();
 
   // input validation
-- 
2.43.0


From 03eaa6074ed1728d8c251215c11fb492e9b262b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 17/28] fix: RSA operations must reject missing or non-string
 arguments

---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 6873873..5c0aa13 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -132,6 +132,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 ==------------------------------------------------------------------------==*/
 bool RSAEncrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_pubkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
@@ -161,6 +163,8 @@ bool RSAEncrypt::run(json::Array& pRetVal)
 ==------------------------------------------------------------------------==*/
 bool RSADecrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_privkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
-- 
2.43.0


From 4496a51f14e46e4656b276154c066010b7648595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 18/28] fix: RSA decryption must not read past the library's
 output

---
 tools/eni_crypto/eni_crypto.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 5c0aa13..c72d0af 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -93,7 +93,8 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
+  std::string result(reinterpret_cast<const char*>(decrypted),
+    ::strnlen(reinterpret_cast<const char*>(decrypted), len));
   pResult.assign(result.c_str(), result.length());
   return true;
 }
@@ -122,7 +123,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
+  std::string result(reinterpret_cast<const char*>(decrypted),
+    ::strnlen(reinterpret_cast<const char*>(decrypted), len));
   pResult.assign(result.c_str(), result.length());
   return true;
 }
-- 
2.43.0


From 4971acdc26059486496702b974c7708471b5fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 19/28] fix: RSA encryption must refuse messages longer than
 the key instead of truncating them

---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index c72d0af..ab04f7b 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -72,6 +72,8 @@ void rsa::destroy(RSA*& pKey)
 bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
+  if (pMsg.length() > (size_t)size)
+    return false;
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
@@ -102,6 +104,8 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
+  if (pMsg.length() > (size_t)size)
+    return false;
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
-- 
2.43.0


From fe853f9155decfa05a835bc6b54718eb638ae994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 20/28] fix: hex decoding must accept upper-case digits and
 refuse anything else

---
 tools/eni_crypto/eni_crypto.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index ab04f7b..8a1f281 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -19,7 +19,9 @@ using namespace eni_crypto;
 ==------------------------------------------------------------------------==*/
 static inline unsigned char hex2digit(char h1, char h0)
 {
-  auto h2d = [](char h) { return (h < 'a') ? (h - '0') : (h - 'a' + 10); };
+  auto h2d = [](char h) {
+    return (h < 'A') ? (h - '0') : ((h | 0x20) - 'a' + 10);
+  };
   return h2d(h1) * 16 + h2d(h0);
 }
 
@@ -38,6 +40,8 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
 {
   if (0 != (pHex.length() % 2))
     return false;
+  if (pHex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+    return false;
   pStr.clear();
   std::string::const_iterator ic, end = pHex.end();
   for (ic = pHex.begin(); ic != end; ic += 2)
-- 
2.43.0


From f06641aa6dedd8fdf1535896054a4b4def6e5348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 21/28] fix: saturate the dot count of the substring filter

---
 include/eni/adt/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 2846d56..4b7e1fc 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -307,7 +307,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
     }
-    result |= (dot << 28);
+    result |= ((dot < 15 ? dot : 15) << 28); //< saturate in 4 bits
     return result;
   }
 
-- 
2.43.0


From 56cad17c4bbfb7f4084b7212c8d3ce59c2cb0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 22/28] fix: release the gas result with the allocator it came
 from

---
 tools/eni_cli/eni_gas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 0504115..403ac76 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -35,6 +35,6 @@ int main(int argc, char* argv[])
   ::dlclose(handle);
 
   std::cout << *gas << std::endl;
-  delete gas;
+  ::free(gas);
   return ExitSuccess;
 }
-- 
2.43.0


From 01c5b593efda48570daeefea1b94aa5f8dae3462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 23/28] fix: counting keys and const chain iteration must be
 usable on read-only tables

---
 include/eni/adt/bits/HashIterator.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 2770046..8840e96 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -25,7 +25,7 @@ ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
-    bucket_type &bucket = m_pHashTable->bucket(m_Index);
+    const bucket_type &bucket = m_pHashTable->bucket(m_Index);
     if (hash_table::Tombstone() == bucket.entry ||
         hash_table::EmptyBucket() == bucket.entry) {
       // Ignore tombstones and empty buckets.
-- 
2.43.0


From 96b5631d748d5ad390f31d150718a261a1fdf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 24/28] revert: leave examples/ as it was (reverse argument
 check)

---
 examples/eni/reverse/eni_reverse.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 1d294d1..1148465 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,8 +15,6 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
-    if (pArgs.size() < 1 || !pArgs[0].isString())
-      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
-- 
2.43.0


From bff7d3a7ac2e7643f15c617bf5439834d78326bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 25/28] fix: saturate the dot count while counting, it could
 still wrap on huge strings

---
 include/eni/adt/StringHasher.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 4b7e1fc..b492e0f 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -283,7 +283,8 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
       int cur_char = pString[idx];
 
       if ('.' == cur_char) {
-        ++dot;
+        if (dot < 15) //< saturate in 4 bits
+          ++dot;
         continue;
       }
 
@@ -307,7 +308,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
     }
-    result |= ((dot < 15 ? dot : 15) << 28); //< saturate in 4 bits
+    result |= (dot << 28);
     return result;
   }
 
-- 
2.43.0


From b754f3e614fbd42d9ef83be49b013cd726bd700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 26/28] fix: indexing a const value by an absent key must not
 insert it

---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 2594e05..abc29c4 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -198,7 +198,7 @@ Value& Value::operator=(const Value& pCopy)
 const Value& Value::operator[](const std::string &key) const
 {
   if (m_Type == OBJECT) {
-    return (*m_Value.object_p)[key];
+    return toObject()[key];
   }
   return g_NullValue;
 }
-- 
2.43.0


From 733c4fab9b1080a8a781c155dd46273031f95ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 27/28] fix: rehashing to fewer buckets than entries must keep
 an empty bucket

---
 include/eni/adt/bits/HashTable.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index c7634fe..d236ce1 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -215,7 +215,11 @@ template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 void HashTable<K, V, H, E, A>::rehash(size_type pCount)
 {
-  super::doRehash(pCount);
+  // the new table must keep at least one bucket empty, or probing never ends
+  unsigned int new_size = static_cast<unsigned int>(pCount);
+  if (new_size <= super::m_NumOfEntries)
+    new_size = internal::compute_bucket_size(super::m_NumOfEntries);
+  super::doRehash(new_size);
 }
 
 template<typename K, typename V, typename H,
-- 
2.43.0


From aa6e77e3a5b0184c64d8fb605989fdaa6713d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 28/28] fix: hash string keys of 4 GiB and more instead of
 looping forever

The 32-bit index of the SDBM hash loop wrapped around before reaching the
size of such a key, so StringMap never returned for it.
---
 include/eni/adt/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index b492e0f..5f75c92 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -157,7 +157,7 @@ struct StringHasher<SDBM> : public std::unary_function<const std::string&, uint3
   {
     uint32_t hash_val = 0;
 
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(std::string::size_type i = 0; i < pKey.size(); ++i)
       hash_val = pKey[i] + (hash_val << 6) + (hash_val << 16) - hash_val;
     return hash_val;
   }
-- 
2.43.0

