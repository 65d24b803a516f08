From 498628c3c40be6bcc17f8b1363de22be2c750848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 01/43] fix: ByteBuffer indexed put/get check the whole element
 against the limit

put(index,v) and get(index) only checked the address of the first byte, so a
multi-byte element at the end of the buffer was written or read past it.
---
 src/misc/pv/byteBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/byteBuffer.h b/src/misc/pv/byteBuffer.h
index 321f35d..ebabad6 100644
--- a/src/misc/pv/byteBuffer.h
+++ b/src/misc/pv/byteBuffer.h
@@ -745,7 +745,7 @@ private:
     template<typename T>
     inline void ByteBuffer::put(std::size_t index, T value) const
     {
-        assert(_buffer+index<=_limit);
+        assert(index<=getLimit() && sizeof(T)<=getLimit()-index);
 
         if(reverse<T>())
             value = swap<T>(value);
@@ -774,7 +774,7 @@ private:
     template<typename T>
     inline T ByteBuffer::get(std::size_t index) const
     {
-        assert(_buffer+index<=_limit);
+        assert(index<=getLimit() && sizeof(T)<=getLimit()-index);
 
         T value = detail::load_unaligned<T>(_buffer + index);
 
-- 
2.43.0


From 5c67c4ef24446557a19a125b04e89607674fc1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 02/43] fix: TimeStamp stays normalized after put(milliseconds)
 and += seconds

---
 src/property/timeStamp.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 57e4c4c..ba98318 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -65,6 +65,7 @@ void TimeStamp::put(int64 milliseconds)
 {
     secondsPastEpoch = milliseconds/1000;
     nanoseconds = (milliseconds%1000)*1000000;
+    normalize();
 }
 
 void TimeStamp::getCurrent()
@@ -163,14 +164,8 @@ TimeStamp & TimeStamp::operator+=(double seconds)
     int64 secs = static_cast<int64>(seconds);
     int64 nano = static_cast<int64>((seconds - secs)*1e9);
     nanoseconds += static_cast<int32>(nano);
-    if(nanoseconds>nanoSecPerSec) {
-        nanoseconds -= nanoSecPerSec;
-        secondsPastEpoch += 1;
-    } else if(nanoseconds<-nanoSecPerSec) {
-        nanoseconds += -nanoSecPerSec;
-        secondsPastEpoch -= 1;
-    }
     secondsPastEpoch += secs;
+    normalize();
     return *this;
 }
 
-- 
2.43.0


From c7bd245d3d19a8bfe10a1eddba85c076293b2db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 03/43] fix: Status::deserialize refuses undefined severities
 and always clears the texts of an OK status

---
 src/misc/status.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 0edd0f3..392be13 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -64,16 +64,14 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     int8 typeCode = buffer->getByte();
     if (typeCode == (int8)-1)
     {
-       // in most of the cases status will be OK, we statistically optimize
-       if (m_statusType != STATUSTYPE_OK)
-       {
-           m_statusType = STATUSTYPE_OK;
-           m_message.clear();
-           m_stackDump.clear();
-       }
+       m_statusType = STATUSTYPE_OK;
+       m_message.clear();
+       m_stackDump.clear();
     }
     else
     {
+        if (typeCode < STATUSTYPE_OK || typeCode > STATUSTYPE_FATAL)
+            throw std::runtime_error("Status: undefined type code received");
         m_statusType = (StatusType)typeCode;
         m_message = SerializeHelper::deserializeString(buffer, flusher);
         m_stackDump = SerializeHelper::deserializeString(buffer, flusher);
-- 
2.43.0


From ee503496343900feb08e503a246689e9cfac9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 04/43] fix: shared_vector::at() refuses the index size()

---
 src/misc/pv/sharedVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 905ee5e..6648087 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -623,7 +623,7 @@ public:
     //! @throws std::out_of_range if i>=size().
     reference at(size_t i) const
     {
-        if(i>this->m_count)
+        if(i>=this->m_count)
             throw std::out_of_range("Index out of bounds");
         return (*this)[i];
     }
-- 
2.43.0


From 64afc81a34d365fe7e57b462ef8ff059c0504d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 05/43] fix: thaw() of a shared slice uses the offset of the
 copy it made

---
 src/misc/pv/sharedVector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 6648087..701b772 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -160,6 +160,9 @@ namespace detail {
             ,m_total(O.m_total)
         {
             O.make_unique();
+            // make_unique() moves the elements to the start of a new array when it copies
+            m_offset = O.m_offset;
+            m_total = O.m_total;
 #if __cplusplus >= 201103L
             m_sdata = std::move(std::tr1::const_pointer_cast<E>(O.m_sdata));
 #else
-- 
2.43.0


From fe72c7c4601937b7d953e8c65fbfa91f86973205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 06/43] fix: setLength() of structure and union arrays lost the
 elements when the length was unchanged or refused

---
 src/factory/PVStructureArray.cpp | 8 ++++----
 src/factory/PVUnionArray.cpp     | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 66577b5..f94cd83 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -123,14 +123,14 @@ void PVStructureArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
-
-    if (length == value.size())
+    if (length == this->value.size())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 151bc5b..f514a7f 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -123,13 +123,14 @@ void PVUnionArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
-    if (length == value.size())
+    if (length == this->value.size())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
-- 
2.43.0


From c64407b91e9cb2a2d2e3864d3066906d65cd624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 07/43] fix: serialize(offset, count) of structure and union
 arrays read past the end when fewer elements were available

---
 src/factory/PVStructureArray.cpp | 1 +
 src/factory/PVUnionArray.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index f94cd83..2f27d78 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -191,6 +191,7 @@ void PVStructureArray::serialize(ByteBuffer *pbuffer,
 
     const_svector temp(view());
     temp.slice(offset, count);
+    count = temp.size();
 
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index f514a7f..738a4aa 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -191,6 +191,7 @@ void PVUnionArray::serialize(ByteBuffer *pbuffer,
 
     const_svector temp(view());
     temp.slice(offset, count);
+    count = temp.size();
 
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
-- 
2.43.0


From 160677790e8d52b976aaf392a79793ce8d01785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 08/43] fix: remove() of structure and union arrays accepted a
 range whose end overflows

---
 src/factory/PVStructureArray.cpp | 2 +-
 src/factory/PVUnionArray.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 2f27d78..11fa0ec 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -46,7 +46,7 @@ bool PVStructureArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (number>getLength() || offset>getLength()-number)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 738a4aa..2b5e62e 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -46,7 +46,7 @@ bool PVUnionArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (number>getLength() || offset>getLength()-number)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
-- 
2.43.0


From 0c340819b9d0ec419e7ff3569ea6107cf9d9c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 09/43] fix: an array received through directDeserialize() was
 discarded

---
 src/factory/PVDataCreateFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 6826e62..3ab7692 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -330,6 +330,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     if (!pbuffer->reverse<T>())
         if (pcontrol->directDeserialize(pbuffer, (char*)cur, size, sizeof(T)))
         {
+        value = freeze(nextvalue);
         // inform about the change?
         PVField::postPut();
         return;
-- 
2.43.0


From b489cf0a196a20a1601c8642619c99af340fe501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 10/43] fix: serializeSubstring() wrote the length but none of
 the characters

---
 src/misc/serializeHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/serializeHelper.cpp b/src/misc/serializeHelper.cpp
index 822ddec..06f471d 100644
--- a/src/misc/serializeHelper.cpp
+++ b/src/misc/serializeHelper.cpp
@@ -83,10 +83,10 @@ namespace epics {
                 offset = 0;
             else*/ if(offset>value.length()) offset = value.length();
 
-            if(offset+count>value.length()) count = value.length()-offset;
+            if(count>value.length()-offset) count = value.length()-offset;
 
             SerializeHelper::writeSize(count, buffer, flusher);
-            /*if (count<=0)*/ return;
+            if (count<=0) return;
             std::size_t i = 0;
             while(true) {
                 std::size_t maxToWrite = min(count-i, buffer->getRemaining());
-- 
2.43.0


From bd537956f4d64e3fbef0a86677c38e5bee985e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 11/43] fix: PVUnion kept a selector received from the wire
 although it is not valid or its value could not be created

---
 src/factory/PVUnion.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/factory/PVUnion.cpp b/src/factory/PVUnion.cpp
index a52687b..f872008 100644
--- a/src/factory/PVUnion.cpp
+++ b/src/factory/PVUnion.cpp
@@ -70,8 +70,8 @@ PVFieldPtr PVUnion::select(int32 index)
         throw std::invalid_argument("index out of bounds");
 
     FieldConstPtr field = unionPtr->getField(index);
-    selector = index;
     value = pvDataCreate->createPVField(field);
+    selector = index;
 
     return value;
 }
@@ -158,21 +158,24 @@ void PVUnion::deserialize(ByteBuffer *pbuffer, DeserializableControl *pcontrol)
     }
     else
     {
-        int32 previousSelector = selector;
-        selector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
-        if (selector != UNDEFINED_INDEX)
+        int32 newSelector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
+        if (newSelector != UNDEFINED_INDEX)
         {
-            if (selector != previousSelector)
+            if (newSelector != selector)
             {
-                FieldConstPtr field = unionPtr->getField(selector);
+                FieldConstPtr field = unionPtr->getField(newSelector);
                 // try to reuse existing field instance
                 if (!value.get() || *value->getField() != *field)
                     value = pvDataCreate->createPVField(field);
+                selector = newSelector;
             }
             value->deserialize(pbuffer, pcontrol);
         }
         else
+        {
+            selector = UNDEFINED_INDEX;
             value.reset();
+        }
     }
 }
 
-- 
2.43.0


From a4e8a334668f1e38662f2a37f6f13423816841ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 12/43] fix: decoding accepted more than the bound of a bounded
 array or bounded string

---
 src/factory/PVDataCreateFactory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 3ab7692..9afac76 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -128,8 +128,7 @@ template<>
 void PVScalarValue<std::string>::deserialize(ByteBuffer *pbuffer,
     DeserializableControl *pflusher)
 {
-    storage.value = SerializeHelper::deserializeString(pbuffer, pflusher);
-    // TODO: check for violations of maxLength?
+    storage.store(SerializeHelper::deserializeString(pbuffer, pflusher));
 }
 
 PVString::PVString(ScalarConstPtr const & scalar)
@@ -319,6 +318,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
     nextvalue.resize(size); // TODO: avoid copy of stuff we will then overwrite
@@ -413,6 +413,7 @@ void PVValueArray<string>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
 
-- 
2.43.0


From 5aa39ca453285d08dce74b9a39ebfd345ba14195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 13/43] fix: a fixed size string array with another number of
 elements was serialized without its length

---
 src/factory/PVDataCreateFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 9afac76..250bb24 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -441,9 +441,10 @@ void PVValueArray<string>::serialize(ByteBuffer *pbuffer,
     const_svector temp(value);
     temp.slice(offset, count);
 
-    // TODO if fixed count == getArray()->getMaximumCapacity()
     if (this->getArray()->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+    else if (temp.size() != this->getArray()->getMaximumCapacity())
+        throw std::length_error("fixed array cannot be partially serialized");
 
     const string * pvalue = temp.data();
     for(size_t i = 0; i<temp.size(); i++) {
-- 
2.43.0


From c5637dd75fc35adba425a2a615fbc57ba8c29924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 14/43] fix: the hexadecimal digit 9 of an escaped character
 was printed as '@'

---
 src/factory/printer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 846f2de..cdbe8af 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -466,7 +466,7 @@ std::ostream& operator<<(std::ostream& strm, const PVStructure::Formatter& forma
 
 static char hexdigit(char c) {
     c &= 0xf;
-    if(c<9)
+    if(c<10)
         return '0'+c;
     else
         return 'A'+c-10;
-- 
2.43.0


From 8385923a7ef024c15d39113ab558aaa3a828e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 15/43] fix: BitSet::deserialize left unused trailing words
 behind when the data did not arrive

---
 src/misc/bitSet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/misc/bitSet.cpp b/src/misc/bitSet.cpp
index d53aaeb..15d407d 100644
--- a/src/misc/bitSet.cpp
+++ b/src/misc/bitSet.cpp
@@ -341,13 +341,16 @@ namespace epics { namespace pvData {
         uint32 bytes = static_cast<uint32>(SerializeHelper::readSize(buffer, control)); // in bytes
 
         size_t wordsInUse = (bytes + 7) / BYTES_PER_WORD;
+
+        // may throw, so wait for the data before anything is changed
+        if (wordsInUse != 0)
+            control->ensureData(bytes);
+
         words.resize(wordsInUse);
 
         if (wordsInUse == 0)
             return;
 
-        control->ensureData(bytes);
-
         uint32 i = 0;
         uint32 longs = bytes / 8;
         while (i < longs)
-- 
2.43.0


From 53b27a8a318c1494631cc9b5d96f54a0678bda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 16/43] fix: BitSet::deserialize took a huge size (8 or less
 below 2^32) for an empty set

---
 src/misc/bitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/bitSet.cpp b/src/misc/bitSet.cpp
index 15d407d..e1cea06 100644
--- a/src/misc/bitSet.cpp
+++ b/src/misc/bitSet.cpp
@@ -340,7 +340,7 @@ namespace epics { namespace pvData {
 
         uint32 bytes = static_cast<uint32>(SerializeHelper::readSize(buffer, control)); // in bytes
 
-        size_t wordsInUse = (bytes + 7) / BYTES_PER_WORD;
+        size_t wordsInUse = ((size_t)bytes + 7) / BYTES_PER_WORD;
 
         // may throw, so wait for the data before anything is changed
         if (wordsInUse != 0)
-- 
2.43.0


From b3c7d9a4cc92c3ead8798c0b44d34f23f1b7768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 17/43] fix: PVDisplay::isAttached() reports the opposite

---
 src/property/pvDisplay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index 0027cb7..df207c5 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -62,7 +62,7 @@ void PVDisplay::detach()
 }
 
 bool PVDisplay::isAttached() {
-    if(pvDescription.get()) return false;
+    if(pvDescription.get()==NULL) return false;
     return true;
 }
 
-- 
2.43.0


From 0496d1d006fc8aea3d791e9aac589f251702ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 18/43] fix: PVControl::detach() keeps hold of minStep

---
 src/property/pvControl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/property/pvControl.cpp b/src/property/pvControl.cpp
index be023e1..6879dcb 100644
--- a/src/property/pvControl.cpp
+++ b/src/property/pvControl.cpp
@@ -47,6 +47,7 @@ void PVControl::detach()
 {
     pvLow.reset();
     pvHigh.reset();
+    pvMinStep.reset();
 }
 
 bool PVControl::isAttached(){
-- 
2.43.0


From 9ae6029ae650ef8f43b8dbaf3dc482e41f2ed878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 19/43] fix: PVEnumerated::choicesMutable() reports the
 opposite

---
 src/property/pvEnumerated.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 5aa61d0..45d2b9a 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -86,7 +86,7 @@ bool PVEnumerated::choicesMutable()
     if(pvIndex.get()==NULL ) {
          throw std::logic_error(notAttached);
     }
-    return pvChoices->isImmutable();
+    return !pvChoices->isImmutable();
 }
 
 int32 PVEnumerated::getNumberChoices()
-- 
2.43.0


From d382a4e3044150f5b84ac3f34fa117b6fb04d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 20/43] fix: attach() of the property views may fail and leave
 a part of a previous or incomplete attachment behind

---
 src/property/pvAlarm.cpp      | 6 +++---
 src/property/pvControl.cpp    | 6 +++---
 src/property/pvDisplay.cpp    | 1 +
 src/property/pvEnumerated.cpp | 3 ++-
 src/property/pvTimeStamp.cpp  | 1 +
 5 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 213d4d0..ffb8f68 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -25,19 +25,19 @@ string PVAlarm::notAttached("Not attached to an alarm structure");
 
 bool PVAlarm::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvSeverity = pvStructure->getSubField<PVInt>("severity");
     if(pvSeverity.get()==NULL) return false;
     pvStatus = pvStructure->getSubField<PVInt>("status");
     if(pvStatus.get()==NULL) {
-        pvSeverity.reset();
+        detach();
         return false;
     }
     pvMessage = pvStructure->getSubField<PVString>("message");
     if(pvMessage.get()==NULL) {
-        pvSeverity.reset();
-        pvStatus.reset();
+        detach();
         return false;
     }
     return true;
diff --git a/src/property/pvControl.cpp b/src/property/pvControl.cpp
index 6879dcb..ed55e2b 100644
--- a/src/property/pvControl.cpp
+++ b/src/property/pvControl.cpp
@@ -25,19 +25,19 @@ string PVControl::notAttached("Not attached to an control structure");
 
 bool PVControl::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvLow = pvStructure->getSubField<PVDouble>("limitLow");
     if(pvLow.get()==NULL) return false;
     pvHigh = pvStructure->getSubField<PVDouble>("limitHigh");
     if(pvHigh.get()==NULL) {
-        pvLow.reset();
+        detach();
         return false;
     }
     pvMinStep = pvStructure->getSubField<PVDouble>("minStep");
     if(pvMinStep.get()==NULL) {
-        pvLow.reset();
-        pvHigh.reset();
+        detach();
         return false;
     }
     return true;
diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index df207c5..613a969 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -25,6 +25,7 @@ string PVDisplay::notAttached("Not attached to an display structure");
 
 bool PVDisplay::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvDescription = pvStructure->getSubField<PVString>("description");
diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 45d2b9a..d701489 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -25,13 +25,14 @@ string PVEnumerated::notAttached("Not attached to an enumerated structure");
 
 bool PVEnumerated::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvIndex = pvStructure->getSubField<PVInt>("index");
     if(pvIndex.get()==NULL) return false;
     PVStringArrayPtr pvStringArray = pvStructure->getSubField<PVStringArray>("choices");
     if(pvStringArray.get()==NULL) {
-        pvIndex.reset();
+        detach();
         return false;
     }
     pvChoices = pvStringArray;
diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 07976bf..2136bb2 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -25,6 +25,7 @@ string PVTimeStamp::notAttached("Not attached to a timeStamp structure");
 
 bool PVTimeStamp::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr xxx = static_pointer_cast<PVStructure>(pvField);
     PVStructure* pvStructure = xxx.get();
-- 
2.43.0


From ca08aa81ad954065f836c4474c2756f7d6928f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 21/43] fix: PVAlarm::set() and PVTimeStamp::set() modify an
 immutable status or user tag

---
 src/property/pvAlarm.cpp     | 2 +-
 src/property/pvTimeStamp.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index ffb8f68..91899e9 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -71,7 +71,7 @@ bool PVAlarm::set(Alarm const & alarm)
     if(pvSeverity.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSeverity->isImmutable() || pvMessage->isImmutable()) return false;
+    if(pvSeverity->isImmutable() || pvStatus->isImmutable() || pvMessage->isImmutable()) return false;
     Alarm current;
     get(current);
     bool returnValue = false;
diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 2136bb2..0f52f62 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -73,7 +73,7 @@ bool PVTimeStamp::set(TimeStamp const & timeStamp)
     if(pvSecs.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSecs->isImmutable() || pvNano->isImmutable()) return false;
+    if(pvSecs->isImmutable() || pvNano->isImmutable() || pvUserTag->isImmutable()) return false;
     TimeStamp current;
     get(current);
     bool returnValue = false;
-- 
2.43.0


From 51a1c0d040a3aa6b55bd3579c2e6015774007e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 22/43] fix: PVEnumerated::getChoices() dereferences a null
 pointer when not attached

---
 src/property/pv/pvEnumerated.h | 2 +-
 src/property/pvEnumerated.cpp  | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/property/pv/pvEnumerated.h b/src/property/pv/pvEnumerated.h
index c10f4aa..8c9813f 100644
--- a/src/property/pv/pvEnumerated.h
+++ b/src/property/pv/pvEnumerated.h
@@ -88,7 +88,7 @@ public:
      * @return The current index.
      * @throw if not attached.
      */
-    inline PVStringArray::const_svector getChoices(){return pvChoices->view();}
+    PVStringArray::const_svector getChoices();
     /**
      * Get the size of the choices array.
      * @return The size.
diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index d701489..bb960b6 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -90,6 +90,14 @@ bool PVEnumerated::choicesMutable()
     return !pvChoices->isImmutable();
 }
 
+PVStringArray::const_svector PVEnumerated::getChoices()
+{
+    if(pvIndex.get()==NULL ) {
+         throw std::logic_error(notAttached);
+    }
+    return pvChoices->view();
+}
+
 int32 PVEnumerated::getNumberChoices()
 {
     if(pvIndex.get()==NULL ) {
-- 
2.43.0


From 5ca68495a6febcc2b9869f35d849b20bb3f9228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 23/43] fix: Timer::run() re-adds a periodic callback which was
 scheduled again while it ran

---
 src/misc/timer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 14a207b..28d61e1 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -115,7 +115,8 @@ void Timer::run()
                 work->callback();
             }
 
-            if(work->period > 0.0 && alive) {
+            // the callback may already be queued again (eg. by itself)
+            if(work->period > 0.0 && alive && !work->onList) {
                 work->timeToRun += work->period;
                 addElement(work);
             }
-- 
2.43.0


From 4ccbf864fa8f729e5b899c41ebc2dbd071ef73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 24/43] fix: Timer::close() empties the queue without the lock,
 and cancel() of a closed timer leaves the callback queued

---
 src/misc/timer.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 28d61e1..48786dc 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -61,10 +61,6 @@ bool Timer::cancel(TimerCallbackPtr const &timerCallback)
 {
     Lock xx(mutex);
     if(!timerCallback->onList) return false;
-    if(!alive) {
-        timerCallback->onList = false;
-        return true;
-    }
     for(queue_t::iterator it(queue.begin()), end(queue.end()); it != end; ++it)
     {
         TimerCallbackPtr& cur = *it;
@@ -150,12 +146,15 @@ void Timer::close() {
     thread.exitWait();
 
     queue_t temp;
-    temp.swap(queue);
+    {
+        Lock xx(mutex);
+        temp.swap(queue);
+        for(queue_t::iterator it(temp.begin()), end(temp.end()); it != end; ++it)
+            (*it)->onList = false;
+    }
 
     for(;!temp.empty(); temp.pop_front()) {
-        TimerCallbackPtr& head = temp.front();
-        head->onList = false;
-        head->timerStopped();
+        temp.front()->timerStopped();
     }
 }
 
-- 
2.43.0


From 062d015cc8cbc832a9405e1695b55ae77fcfa7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 25/43] fix: Timer::run() waits too long for the next callback
 after one that took time

---
 src/misc/timer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 48786dc..e885f03 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -117,7 +117,10 @@ void Timer::run()
                 addElement(work);
             }
 
-            // don't update 'now' until all expired jobs run
+            // don't update 'now' until all expired jobs run.
+            // Then the time spent in callbacks must not delay the next job
+            if(!queue.empty() && queue.front()->timeToRun > now)
+                now = epicsTime::getCurrent();
 
         } else {
             waiting = true;
-- 
2.43.0


From 16957211b3358b3e460c5fbf42cb66b0c7fe42d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 26/43] fix: getFieldCreate() and getPVDataCreate() follow a
 null pointer when the one-time initialisation failed

---
 src/factory/FieldCreateFactory.cpp  | 2 +-
 src/factory/PVDataCreateFactory.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 6c5f9b0..bee82a3 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1619,7 +1619,7 @@ static void field_factory_init(void*)
 const FieldCreatePtr& FieldCreate::getFieldCreate()
 {
     epicsThreadOnce(&field_factory_once, &field_factory_init, 0);
-    if(!field_factory_s->fieldCreate)
+    if(!field_factory_s || !field_factory_s->fieldCreate)
         throw std::logic_error("getFieldCreate() not initialized");
     return field_factory_s->fieldCreate;
 }
diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 250bb24..7cac66b 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -741,7 +741,7 @@ static void pvfield_factory_init(void*)
 const PVDataCreatePtr& PVDataCreate::getPVDataCreate()
 {
     epicsThreadOnce(&pvfield_factory_once, &pvfield_factory_init, 0);
-    if(!pvfield_factory_s->pvDataCreate)
+    if(!pvfield_factory_s || !pvfield_factory_s->pvDataCreate)
         throw std::logic_error("getPVDataCreate() not initialized");
     return pvfield_factory_s->pvDataCreate;
 }
-- 
2.43.0


From a82e50a1862f0a4be9940efe2a74a63827f08543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 27/43] fix: an exception escapes from the one-time initialiser
 of getStandardField()

---
 src/factory/StandardField.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/factory/StandardField.cpp b/src/factory/StandardField.cpp
index 49b4c90..8ea523e 100644
--- a/src/factory/StandardField.cpp
+++ b/src/factory/StandardField.cpp
@@ -8,6 +8,7 @@
  */
 #include <string>
 #include <cstdio>
+#include <iostream>
 #include <stdexcept>
 
 #include <epicsMutex.h>
@@ -269,14 +270,18 @@ static epicsThreadOnceId stdFieldGblOnce = EPICS_THREAD_ONCE_INIT;
 
 void StandardField::once(void*)
 {
-    stdFieldGbl = new StandardFieldPtr;
-    stdFieldGbl->reset(new StandardField);
+    try {
+        stdFieldGbl = new StandardFieldPtr(new StandardField);
+    }catch(std::exception& e){
+        std::cerr<<"Error initializing getStandardField() : "<<e.what()<<"\n";
+    }
 }
 
 const StandardFieldPtr &StandardField::getStandardField()
 {
     epicsThreadOnce(&stdFieldGblOnce, &StandardField::once, 0);
-
+    if(!stdFieldGbl)
+        throw std::logic_error("getStandardField() not initialized");
     return *stdFieldGbl;
 }
 
-- 
2.43.0


From dfd596742974f6df201514d049d2729ac32f5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 28/43] fix: alarm name tables are left unfinished when filling
 them fails

---
 src/property/alarm.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/property/alarm.cpp b/src/property/alarm.cpp
index b79bad7..74695c4 100644
--- a/src/property/alarm.cpp
+++ b/src/property/alarm.cpp
@@ -44,13 +44,14 @@ StringArrayPtr AlarmSeverityFunc::getSeverityNames()
     static Mutex mutex;
     Lock xx(mutex);
     if(severityNames.get()==NULL) {
-        severityNames = StringArrayPtr(new StringArray());
-        severityNames->reserve(severityCount);
-        severityNames->push_back("NONE");
-        severityNames->push_back("MINOR");
-        severityNames->push_back("MAJOR");
-        severityNames->push_back("INVALID");
-        severityNames->push_back("UNDEFINED");
+        StringArrayPtr names(new StringArray());
+        names->reserve(severityCount);
+        names->push_back("NONE");
+        names->push_back("MINOR");
+        names->push_back("MAJOR");
+        names->push_back("INVALID");
+        names->push_back("UNDEFINED");
+        severityNames = names;
     }
     return severityNames;
 }
@@ -92,16 +93,17 @@ StringArrayPtr AlarmStatusFunc::getStatusNames()
     static Mutex mutex;
     Lock xx(mutex);
     if(statusNames.get()==NULL) {
-        statusNames = StringArrayPtr(new StringArray());
-        statusNames->reserve(statusCount);
-        statusNames->push_back("NONE");
-        statusNames->push_back("DEVICE");
-        statusNames->push_back("DRIVER");
-        statusNames->push_back("RECORD");
-        statusNames->push_back("DB");
-        statusNames->push_back("CONF");
-        statusNames->push_back("UNDEFINED");
-        statusNames->push_back("CLIENT");
+        StringArrayPtr names(new StringArray());
+        names->reserve(statusCount);
+        names->push_back("NONE");
+        names->push_back("DEVICE");
+        names->push_back("DRIVER");
+        names->push_back("RECORD");
+        names->push_back("DB");
+        names->push_back("CONF");
+        names->push_back("UNDEFINED");
+        names->push_back("CLIENT");
+        statusNames = names;
     }
     return statusNames;
 }
-- 
2.43.0


From ca99a06d42e29ab0239182e56fb87eaf0939f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 29/43] fix: copy() of array slices reads and writes out of
 bounds for offsets and strides beyond the arrays

---
 src/factory/pvSubArrayCopy.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index 35b03ed..e170abf 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -19,6 +19,19 @@ using std::string;
 
 namespace epics { namespace pvData {
 
+static void checkSlice(
+    size_t fromLength,
+    size_t fromOffset,
+    size_t fromStride,
+    size_t toOffset,
+    size_t toStride,
+    size_t count)
+{
+    size_t maxcount = fromOffset<fromLength ? (fromLength - fromOffset - 1)/fromStride + 1 : 0;
+    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    if(count>(size_t(-1) - toOffset)/toStride) throw std::invalid_argument("pvSubArrayCopy pvTo length error");
+}
+
 template<typename T>
 void copy(
     PVValueArray<T> & pvFrom,
@@ -32,8 +45,7 @@ void copy(
     if(pvTo.isImmutable()) throw std::invalid_argument("pvSubArrayCopy: pvTo is immutable");
     if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
     size_t fromLength = pvFrom.getLength();
-    size_t maxcount = (fromLength -fromOffset + fromStride -1)/fromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    checkSlice(fromLength,fromOffset,fromStride,toOffset,toStride,count);
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
@@ -170,8 +182,7 @@ void copy(
             "pvSubArrayCopy structureArray pvTo and pvFrom have different structures");
     }
     size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    checkSlice(pvFromLength,pvFromOffset,pvFromStride,toOffset,toStride,count);
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
@@ -206,8 +217,7 @@ void copy(
             "pvSubArrayCopy unionArray pvTo and pvFrom have different unions");
     }
     size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    checkSlice(pvFromLength,pvFromOffset,pvFromStride,toOffset,toStride,count);
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
-- 
2.43.0


From a25d4f3f6e747f57467b3ee6020f660d639d48f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 30/43] fix: compare() of types considers the bounds of strings
 and arrays

---
 src/factory/Compare.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 1e53608..2eec4aa 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -69,14 +69,23 @@ bool compare(const Scalar& a, const Scalar& b)
 {
     if(&a==&b)
         return true;
-    return a.getScalarType()==b.getScalarType();
+    if(a.getScalarType()!=b.getScalarType())
+        return false;
+    // a bounded string is distinguished by its bound
+    const BoundedString *A=dynamic_cast<const BoundedString*>(&a);
+    const BoundedString *B=dynamic_cast<const BoundedString*>(&b);
+    if(!A || !B)
+        return !A && !B;
+    return compare(*A, *B);
 }
 
 bool compare(const ScalarArray& a, const ScalarArray& b)
 {
     if(&a==&b)
         return true;
-    return a.getElementType()==b.getElementType();
+    return a.getElementType()==b.getElementType()
+            && a.getArraySizeType()==b.getArraySizeType()
+            && a.getMaximumCapacity()==b.getMaximumCapacity();
 }
 
 bool compare(const Structure& a, const Structure& b)
-- 
2.43.0


From 6b0123a9fde573729869cc9739714ae478bfbc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 31/43] fix: comparing variant unions of which only the right
 one is empty dereferences null

---
 src/factory/Compare.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 2eec4aa..288fbc1 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -281,10 +281,11 @@ bool compareField(const PVUnion* left, const PVUnion* right)
     if (ls->isVariant())
     {
         const PVField::const_shared_pointer& lval = left->get();
-        if (lval.get() == 0)
-            return right->get().get() == 0;
+        const PVField::const_shared_pointer& rval = right->get();
+        if (lval.get() == 0 || rval.get() == 0)
+            return lval.get() == rval.get();
         else
-            return *(lval.get()) == *(right->get().get());
+            return *(lval.get()) == *(rval.get());
     }
     else
     {
-- 
2.43.0


From 320d027bd53889618b2110a97b17c9d683982118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 32/43] fix: boolean values are compared through their own
 class

---
 src/factory/Compare.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 288fbc1..5fefe5d 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -177,7 +177,7 @@ bool compareField(const PVScalar* left, const PVScalar* right)
         return false;
     switch(lht) {
 #define OP(ENUM, TYPE) case ENUM: return compareScalar(static_cast<const PVScalarValue<TYPE>*>(left), static_cast<const PVScalarValue<TYPE>*>(right))
-    OP(pvBoolean, uint8);
+    OP(pvBoolean, boolean);
     OP(pvUByte, uint8);
     OP(pvByte, int8);
     OP(pvUShort, uint16);
@@ -208,7 +208,7 @@ bool compareField(const PVScalarArray* left, const PVScalarArray* right)
 
     switch(lht) {
 #define OP(ENUM, TYPE) case ENUM: return compareArray(static_cast<const PVValueArray<TYPE>*>(left), static_cast<const PVValueArray<TYPE>*>(right))
-    OP(pvBoolean, uint8);
+    OP(pvBoolean, boolean);
     OP(pvUByte, uint8);
     OP(pvByte, int8);
     OP(pvUShort, uint16);
-- 
2.43.0


From d8782497c624679584cfc73fe8319c8164a63ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:39 +0000
Subject: [PATCH 33/43] fix: parseJSON into a field rejects nested arrays and
 bare values for array fields

---
 src/json/parseinto.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 601fa4c..6fdfba4 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -25,8 +25,9 @@ struct context {
     struct frame {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
+        bool inarray; // fld is an array, and its '[' has been seen
         frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
-            :fld(fld), assigned(assigned)
+            :fld(fld), assigned(assigned), inarray(false)
         {}
     };
 
@@ -67,6 +68,8 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
         // structure at the top of the stack
 
     } else if(type==pvd::scalarArray) {
+        if(!back.inarray)
+            throw std::invalid_argument("Can't assign value to array");
         pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
 
         pvd::shared_vector<const void> carr;
@@ -184,6 +187,8 @@ int jtree_start_map(void * ctx)
             // will fill in
         } else if(type==pvd::structureArray) {
             // starting new element in structure array
+            if(!back.inarray)
+                throw std::runtime_error("Can't map (sub)structure");
             pvd::PVStructureArray* sarr(static_cast<pvd::PVStructureArray*>(back.fld.get()));
 
             pvd::PVStructurePtr elem(pvd::getPVDataCreate()->createPVStructure(sarr->getStructureArray()->getStructure()));
@@ -251,10 +256,13 @@ int jtree_start_array(void * ctx)
 {
     TRY {
         assert(!self->stack.empty());
-        pvd::PVFieldPtr& back(self->stack.back().fld);
-        pvd::Type type = back->getField()->getType();
+        context::frame& back(self->stack.back());
+        pvd::Type type = back.fld->getField()->getType();
         if(type!=pvd::structureArray && type!=pvd::scalarArray)
             throw std::runtime_error("Can't assign array");
+        if(back.inarray)
+            throw std::runtime_error("Can't assign nested array");
+        back.inarray = true;
 
         return 1;
     }CATCH()
-- 
2.43.0


From 0edf5691dfdead4ccee5fb2c69a7aac049070092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 34/43] fix: refuse reserved boolean and string type codes

---
 src/factory/FieldCreateFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index bee82a3..9a19036 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1463,10 +1463,10 @@ static int decodeScalar(int8 code)
     // bits 7-5
     switch (code >> 5)
     {
-    case 0: return pvBoolean;
+    case 0: return (code & 0x07) ? -1 : pvBoolean; // bits 2-0 are reserved
     case 1: return integerLUT[code & 0x07];
     case 2: return floatLUT[code & 0x07];
-    case 3: return pvString;
+    case 3: return (code & 0x07) ? -1 : pvString;
     default: return -1;
     }
 }
-- 
2.43.0


From 2ad232878ccc4876938524b465800e91fe70a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 35/43] fix: arrays of structures and unions need an element
 type of that kind

---
 src/factory/FieldCreateFactory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 9a19036..a4a3db4 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -418,6 +418,8 @@ void FixedScalarArray::serialize(ByteBuffer *buffer, SerializableControl *contro
 StructureArray::StructureArray(StructureConstPtr const & structure)
 : Array(structureArray),pstructure(structure)
 {
+    if(!pstructure)
+        THROW_EXCEPTION2(std::invalid_argument, "Can't construct StructureArray, NULL structure");
 }
 
 StructureArray::~StructureArray()
@@ -458,6 +460,8 @@ std::tr1::shared_ptr<PVValueArray<std::tr1::shared_ptr<PVStructure> > > Structur
 UnionArray::UnionArray(UnionConstPtr const & _punion)
 : Array(unionArray),punion(_punion)
 {
+    if(!punion)
+        THROW_EXCEPTION2(std::invalid_argument, "Can't construct UnionArray, NULL union");
 }
 
 UnionArray::~UnionArray()
@@ -1561,7 +1565,7 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.structureArray;
-            StructureConstPtr elementStructure = std::tr1::static_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            StructureConstPtr elementStructure = std::tr1::dynamic_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new StructureArray(elementStructure));
             Helper::cache(this, sp);
@@ -1574,7 +1578,7 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.unionArray;
-            UnionConstPtr elementUnion = std::tr1::static_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            UnionConstPtr elementUnion = std::tr1::dynamic_pointer_cast<const Union>(control->cachedDeserialize(buffer));
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new UnionArray(elementUnion));
             Helper::cache(this, sp);
-- 
2.43.0


From 04e8364050b92a76dc429765e7faa6c247091798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 36/43] fix: appendFields() refuses differing numbers of names
 and fields

---
 src/factory/FieldCreateFactory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index a4a3db4..f2e1ea8 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1421,6 +1421,8 @@ StructureConstPtr FieldCreate::appendFields(
     FieldConstPtrArray const & fields) const
 {
     validateFieldNames(fieldNames);
+    if(fieldNames.size()!=fields.size())
+        THROW_EXCEPTION2(std::invalid_argument, "Can't append fields, fieldNames.size()!=fields.size()");
     StringArray const & oldNames = structure->getFieldNames();
     FieldConstPtrArray const & oldFields = structure->getFields();
     size_t oldLen = oldNames.size();
-- 
2.43.0


From 61d2ae7d6ebfda66382461c2c7b20934d98b289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 37/43] fix: FieldBuilder refuses a missing field

---
 src/factory/FieldCreateFactory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index f2e1ea8..b7c83f7 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1021,6 +1021,8 @@ FieldBuilderPtr FieldBuilder::addBoundedString(std::string const & name, std::si
 
 FieldBuilderPtr FieldBuilder::add(string const & name, FieldConstPtr const & field)
 {
+    if(!field)
+        THROW_EXCEPTION2(std::invalid_argument, "NULL field : "+name);
     const Field* cur = findField(name, field->getType());
     if(!cur) {
         fields.push_back(field); fieldNames.push_back(name);
@@ -1047,6 +1049,8 @@ FieldBuilderPtr FieldBuilder::addBoundedArray(string const & name, ScalarType sc
 
 FieldBuilderPtr FieldBuilder::addArray(string const & name, FieldConstPtr const & element)
 {
+    if(!element)
+        THROW_EXCEPTION2(std::invalid_argument, "NULL array element : "+name);
     FieldConstPtr fld;
     switch (element->getType())
     {
-- 
2.43.0


From aad564a68bbb1d379aec62a2ba79748382585859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:26 +0000
Subject: [PATCH 38/43] fix: an invalid part of a nested request makes
 PVRequestMapper::compute() fail

The result of the recursive _compute() was ignored, so that an improperly
composed request below the first level was silently dropped from the mapping
although the same request at the first level is refused.
---
 src/copy/requestmapper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 6fd2fcd..9647236 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -211,9 +211,9 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
             if(keepids)
                 builder = builder->setId(substruct.getStructure()->getID());
 
-            _compute(substruct,
-                     static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
-                     builder, keepids, depth+1u);
+            ok &= _compute(substruct,
+                           static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
+                           builder, keepids, depth+1u);
 
             builder = builder->endNested();
         }
-- 
2.43.0


From 4b2accd830abce419ef50decbf16c585e60b20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:38 +0000
Subject: [PATCH 39/43] fix: createRequest() does not use one stack frame per
 field and per brace

A request of some ten thousand fields overflowed the stack: the text after
each comma, and each brace when looking for the matching one, was handled
by a recursive call.
---
 src/copy/createRequest.cpp | 49 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 2616550..39947ae 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -67,18 +67,21 @@ struct CreateRequestImpl {
     }
 
     size_t findMatchingBrace(string& request, size_t index, int numOpen) {
-        size_t openBrace = request.find('{', index+1);
-        size_t closeBrace = request.find('}', index+1);
-        if(openBrace == string::npos && closeBrace == string::npos){
-             throw std::runtime_error(request + " mismatched {}");
-        }
-        if (openBrace != string::npos && openBrace!=0) {
-            if(openBrace<closeBrace) return findMatchingBrace(request,openBrace,numOpen+1);
-            if(numOpen==1) return closeBrace;
-            return findMatchingBrace(request,closeBrace,numOpen-1);
+        while(true) {
+            size_t openBrace = request.find('{', index+1);
+            size_t closeBrace = request.find('}', index+1);
+            if(openBrace == string::npos && closeBrace == string::npos){
+                 throw std::runtime_error(request + " mismatched {}");
+            }
+            if(openBrace<closeBrace) {
+                index = openBrace;
+                numOpen++;
+            } else {
+                if(numOpen==1) return closeBrace;
+                index = closeBrace;
+                numOpen--;
+            }
         }
-        if(numOpen==1) return closeBrace;
-        return findMatchingBrace(request,closeBrace,numOpen-1);
     }
 
     size_t findMatchingBracket(string& request, size_t index) {
@@ -171,6 +174,13 @@ struct CreateRequestImpl {
     void createSubNode(Node &node,string const & crequest)
     {
         string request = crequest;
+        while(createOneSubNode(node,request)) {}
+    }
+
+    // creates the first sub node of request and leaves what follows it in request.
+    // returns false when nothing follows.
+    bool createOneSubNode(Node &node,string & request)
+    {
         size_t end = 0;
         for(size_t i=0; i<request.size(); ++i) {
             if(request[i]=='[') { end = i; break;}
@@ -213,16 +223,15 @@ struct CreateRequestImpl {
             if(optionNode.name.size()>0) subNode.nodes.push_back(optionNode);
             node.nodes.push_back(subNode);
             fullFieldName = saveFullName;
-            return;
+            return false;
         }
         if(chr==',') {
             Node subNode(name);
             if(optionNode.name.size()>0) subNode.nodes.push_back(optionNode);
             node.nodes.push_back(subNode);
-            string rest = request.substr(end+1);
+            request = request.substr(end+1);
             fullFieldName = saveFullName;
-            createSubNode(node,rest);
-            return;
+            return true;
         }
         if(chr=='.') {
             request = request.substr(end+1);
@@ -238,12 +247,11 @@ struct CreateRequestImpl {
             size_t next = endField+1;
             if(next>=request.size()) {
                 fullFieldName = saveFullName;
-                return;
+                return false;
             }
             request = request.substr(next);
             fullFieldName = saveFullName;
-            createSubNode(node,request);
-            return;
+            return true;
         }
         if(chr=='{') {
             size_t endBrace = findEndField(request);
@@ -261,12 +269,11 @@ struct CreateRequestImpl {
             size_t next = endBrace + 1;
             if(next>=request.size()) {
                 fullFieldName = saveFullName;
-                return;
+                return false;
             }
             request = request.substr(next);
             fullFieldName = saveFullName;
-            createSubNode(node,request);
-            return;
+            return true;
         }
         throw std::runtime_error("logic error");
     }
-- 
2.43.0


From cfbc246088d2e41b760a7f612eecdd8532528816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:24 +0000
Subject: [PATCH 40/43] fix: createRequest() limits the nesting of fields

A request nested some ten thousand levels deep overflowed the stack.
---
 src/copy/createRequest.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 39947ae..25e3617 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -52,9 +52,11 @@ struct CreateRequestImpl {
 
     vector<OptionPair> optionList;
     string fullFieldName;
+    unsigned depth;
+    // arbitrary limit on nesting to bound stack usage during recursion
+    static const unsigned maxDepth = 100;
 
-
-    CreateRequestImpl() {}
+    CreateRequestImpl() :depth(0) {}
 
 
     void removeBlanks(string& str)
@@ -173,8 +175,13 @@ struct CreateRequestImpl {
 
     void createSubNode(Node &node,string const & crequest)
     {
+        if(depth>=maxDepth) {
+            throw std::runtime_error("fields nested too deeply");
+        }
+        depth++;
         string request = crequest;
         while(createOneSubNode(node,request)) {}
+        depth--;
     }
 
     // creates the first sub node of request and leaves what follows it in request.
-- 
2.43.0


From e74510c10fd4f5e97de7d0125c3acf4760b6bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:04 +0000
Subject: [PATCH 41/43] fix: cloning a PVUnion

A union without a value was dereferenced, and a value of structure or bounded
string type was refused because the clone of it had another type.
---
 src/factory/PVDataCreateFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 7cac66b..d09dd09 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -712,8 +712,8 @@ PVStructurePtr PVDataCreate::createPVStructure(PVStructurePtr const & structToCl
 PVUnionPtr PVDataCreate::createPVUnion(PVUnionPtr const & unionToClone)
 {
     PVUnionPtr punion(new PVUnion(unionToClone->getUnion()));
-    // set cloned value
-    punion->set(unionToClone->getSelectedIndex(), createPVField(unionToClone->get()));
+    // set cloned value, of the same field of the union's type
+    punion->copyUnchecked(*unionToClone);
     return punion;
 }
 
-- 
2.43.0


From 2637271e3b649e415f650488d23aceae91b20442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:04 +0000
Subject: [PATCH 42/43] fix: createPVField() moved the members of a structure
 into its clone

The clone had the very members of the source as its own, which took their
parent from the source, and lost the structure ID.
---
 src/factory/PVDataCreateFactory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index d09dd09..07f4b55 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -519,9 +519,7 @@ PVFieldPtr PVDataCreate::createPVField(PVFieldPtr const & fieldToClone)
          {
              PVStructurePtr pvStructure
                    = static_pointer_cast<PVStructure>(fieldToClone);
-             StringArray const & fieldNames = pvStructure->getStructure()->getFieldNames();
-             PVFieldPtrArray const & pvFieldPtrArray = pvStructure->getPVFields();
-             return createPVStructure(fieldNames,pvFieldPtrArray);
+             return createPVStructure(pvStructure);
          }
      case structureArray:
          {
-- 
2.43.0


From 0216660413790459af2b0cd8713652e3d815a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:04 +0000
Subject: [PATCH 43/43] fix: the clone of a bounded string or a sized array
 lost its bound

---
 src/factory/PVDataCreateFactory.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 07f4b55..0400cb9 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -591,8 +591,7 @@ PVScalarPtr PVDataCreate::createPVScalar(ScalarType scalarType)
 
 PVScalarPtr PVDataCreate::createPVScalar(PVScalarPtr const & scalarToClone)
 {
-     ScalarType scalarType = scalarToClone->getScalar()->getScalarType();
-     PVScalarPtr pvScalar = createPVScalar(scalarType);
+     PVScalarPtr pvScalar = createPVScalar(scalarToClone->getScalar());
      pvScalar->copyUnchecked(*scalarToClone);
      return pvScalar;
 }
@@ -641,8 +640,10 @@ PVScalarArrayPtr PVDataCreate::createPVScalarArray(
         PVScalarArrayPtr const & arrayToClone)
 {
      PVScalarArrayPtr pvArray = createPVScalarArray(
-          arrayToClone->getScalarArray()->getElementType());
-     pvArray->assign(*arrayToClone.get());
+          arrayToClone->getScalarArray());
+     // a fixed size array which was never set is empty, as is the new one
+     if(arrayToClone->getLength()!=0)
+         pvArray->assign(*arrayToClone.get());
     return pvArray;
 }
 
-- 
2.43.0

