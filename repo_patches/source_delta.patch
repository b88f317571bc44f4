From 3339e1eca46aadb16e04120f4e029fb5771f7c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 001/107] fix: bint128 writes values below -2^55 as raw 9 byte
 form

Values below -2^56 were written as 10 bytes (the reader takes 9), and values
in [-2^56, -2^55) read back wrong, since the sign group landed in the 9th
byte, which the reader takes as data.
---
 datas/base_128.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index 176d946..bb9bbfc 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -54,8 +54,8 @@ struct bint128 {
 
   void Write(BinWritterRef wr) const {
     // there shouldn't be a sign flag for values lower than
-    // -72'057'594'037'927'936
-    bool sign = value < 0 && !(~(value >> 56));
+    // -36'028'797'018'963'968, they are stored raw in 9 bytes
+    bool sign = value < 0 && !(~(value >> 55));
     uint64 valueCopy = sign ? ~value : value;
     uint8 lastValue = 0;
     size_t lastIndex = 0;
@@ -64,7 +64,7 @@ struct bint128 {
       lastValue = static_cast<uint8>(valueCopy);
       valueCopy >>= 7;
 
-      if (!valueCopy) {
+      if (!valueCopy || lastIndex == 8) {
         break;
       }
 
-- 
2.43.0


From 4a127ba1b18ccccb39d6aeb4f7b968c22ed7d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 002/107] fix: BinWritter writes arrays element wise with
 swapped endian

The array decayed to a pointer, which was swapped and then written together
with the stack memory behind it.
---
 datas/binwritter_ref.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/datas/binwritter_ref.hpp b/datas/binwritter_ref.hpp
index 529b532..1c21e60 100644
--- a/datas/binwritter_ref.hpp
+++ b/datas/binwritter_ref.hpp
@@ -90,6 +90,17 @@ public:
     Write<charType>(0);
   }
 
+  template <class T, size_t _size> void Write(const T (&input)[_size]) const {
+    const size_t size = sizeof(T);
+    if (this->swapEndian && size > 1) {
+      for (auto &i : input) {
+        _WriteSwapped(i);
+      }
+    } else {
+      WriteBuffer(reinterpret_cast<const char *>(input), size * _size);
+    }
+  }
+
   // SFINAE
   // Write class with its Write(BinWritterRef_t) const member method, or writes
   // type itself
@@ -98,6 +109,17 @@ public:
   }
 
 private:
+  template <class T, size_t _size>
+  void _WriteSwapped(const T (&input)[_size]) const {
+    Write(input);
+  }
+
+  template <class T> void _WriteSwapped(const T &value) const {
+    auto outCopy = value;
+    FByteswapper(outCopy, true);
+    WriteBuffer(reinterpret_cast<const char *>(&outCopy), sizeof(T));
+  }
+
   template <class C, class D>
   auto _WriteSingle(const D &input, int) const
       -> decltype(std::declval<C>().Write(*this), void()) {
-- 
2.43.0


From 40dbd891f665ca34c644006a7382ad8fee521178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 003/107] fix: moved BinReader and BinWritter use their own
 file stream

---
 datas/binreader.hpp  | 7 ++++++-
 datas/binwritter.hpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/datas/binreader.hpp b/datas/binreader.hpp
index 3ef4984..37203e8 100644
--- a/datas/binreader.hpp
+++ b/datas/binreader.hpp
@@ -37,7 +37,12 @@ public:
   }
   BinReader(const char *filePath) { OpenFile(filePath); }
   BinReader(const BinReader &) = delete;
-  BinReader(BinReader &&) = default;
+  BinReader(BinReader &&other)
+      : BinReaderRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinReader &operator=(const BinReader &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
diff --git a/datas/binwritter.hpp b/datas/binwritter.hpp
index 155b74b..aae04ac 100644
--- a/datas/binwritter.hpp
+++ b/datas/binwritter.hpp
@@ -38,7 +38,12 @@ public:
   BinWritter(const char *filePath) { OpenFile(filePath); }
 
   BinWritter(const BinWritter &rd) = delete;
-  BinWritter(BinWritter &&) = default;
+  BinWritter(BinWritter &&other)
+      : BinWritterRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinWritter &operator=(const BinWritter &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
-- 
2.43.0


From 8711d2daadf69237e224a4c1df8b22e6baeb14cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 004/107] fix: whitespace trimming reads outside of empty
 strings

---
 datas/supercore.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index abb2ca6..326b52a 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -95,9 +95,8 @@ bool IsEnd(const cnt &container, const iterType &iter) {
 
 template <class sview>
 sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input[0] == ' ' || input[0] == '\t' ||
-          (inclNewLine && input[0] == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input[0] == ' ' || input[0] == '\t' ||
+                            (inclNewLine && input[0] == '\n')))
     input.remove_prefix(1);
 
   return input;
@@ -105,9 +104,8 @@ sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
 
 template <class sview>
 sview SkipEndWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input.back() == ' ' || input.back() == '\t' ||
-          (inclNewLine && input.back() == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input.back() == ' ' || input.back() == '\t' ||
+                            (inclNewLine && input.back() == '\n')))
     input.remove_suffix(1);
 
   return input;
-- 
2.43.0


From cab7c09c6c9227b4c4ed4b94e49aec57e79d83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 005/107] fix: reflector writes outside of a member for out of
 range sub indices

---
 datas/reflector.cpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1ef44b2..d5526eb 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -507,6 +507,33 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   size_t subID) {
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
+
+  if (type.type == REFType::EnumFlags) {
+    if (subID >= type.subSize * 8u) {
+      printerror("[Reflector] Flag index out of range: " << subID);
+      return ErrorType::OutOfRange;
+    }
+
+    bool setFlag;
+    auto errType = SetBoolean(es::SkipStartWhitespace(value), setFlag);
+
+    if (errType == ErrorType::None) {
+      uint64 eValue = 0;
+      memcpy(&eValue, thisAddr + type.offset, type.subSize);
+      const uint64 mask = 1ULL << subID;
+      eValue = setFlag ? eValue | mask : eValue & ~mask;
+      memcpy(thisAddr + type.offset, &eValue, type.subSize);
+    }
+
+    return errType;
+  }
+
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   thisAddr += type.offset + type.subSize * subID;
   type.type = type.subType;
 
@@ -535,6 +562,12 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
     return ErrorType::InvalidDestination;
   }
 
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr += type.offset + type.subSize * subID;
@@ -543,8 +576,8 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
     _DecomposedVectorHash dec = {type.typeHash};
     type.subSize = dec.size;
 
-    if (element >= dec.size) {
-      printerror("[Reflector] Too many vector elements, " << dec.size
+    if (element >= dec.numItems) {
+      printerror("[Reflector] Too many vector elements, " << dec.numItems
                                                           << " expected.");
       return ErrorType::OutOfRange;
     }
-- 
2.43.0


From 3efe936cecfb1174f64adf358255ba1108d20e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 006/107] fix: reflector boolean parser reads past the end of
 short inputs

---
 datas/reflector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index d5526eb..feded39 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -186,9 +186,9 @@ static Reflector::ErrorType SetBoolean(std::string input, bool &output) {
   std::for_each(input.begin(), input.end(),
                 [](char &c) { c = static_cast<char>(std::tolower(c)); });
 
-  output = !memcmp(input.c_str(), "true", 4);
+  output = !input.compare(0, 4, "true");
 
-  if (!output && memcmp(input.c_str(), "false", 5)) {
+  if (!output && input.compare(0, 5, "false")) {
     printwarning("[Reflector] Expected true/false, got: " << input);
     return Reflector::ErrorType::InvalidFormat;
   }
-- 
2.43.0


From 6e42039bca0b9f75925a8b8dfa255b19dc63fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 007/107] fix: reflector reports wrong values for flags above
 bit 30

---
 datas/reflector.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index feded39..9e8b826 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -719,7 +719,7 @@ static std::string PrintEnum(const char *objAddr, JenHash hash, uint16 elSize) {
 
 static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
                                   uint16 elSize) {
-  uint64 eValue;
+  uint64 eValue = 0;
   ReflectedEnum *rEnumFallback = nullptr;
   std::string result;
   const size_t numBits = elSize * 8;
@@ -954,11 +954,11 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID) const {
       return "";
     }
 
-    uint64 eValue;
+    uint64 eValue = 0;
 
     memcpy(reinterpret_cast<char *>(&eValue), objAddr, reflValue.subSize);
 
-    return (eValue & (1 << subID)) ? "true" : "false";
+    return (eValue & (1ULL << subID)) ? "true" : "false";
   }
 
   default:
@@ -1002,12 +1002,12 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID,
       return "";
     }
 
-    uint64 eValue;
+    uint64 eValue = 0;
 
     memcpy(reinterpret_cast<char *>(&eValue),
            objAddr + reflValue.subSize * subID, reflValue.subSize);
 
-    return (eValue & (1 << element)) ? "true" : "false";
+    return (eValue & (1ULL << element)) ? "true" : "false";
   }
 
   default:
-- 
2.43.0


From bbbb667954a62372c5773a0610fd91130e2427c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 008/107] fix: reflector returns bytes of the pointer for C
 string members

---
 datas/reflector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 9e8b826..d6f4e92 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -865,8 +865,10 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     break;
   }
 
-  case REFType::CString:
-    return objAddr;
+  case REFType::CString: {
+    const char *cString = *reinterpret_cast<const char *const *>(objAddr);
+    return cString ? cString : "";
+  }
 
   case REFType::String:
     return *reinterpret_cast<const std::string *>(objAddr);
-- 
2.43.0


From 4225246b65d8852c1f4ab8f4385bc37f08e6c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 009/107] fix: GetReflectedPair with format settings crashes
 for classes without aliases

---
 datas/internal/reflector.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/internal/reflector.inl b/datas/internal/reflector.inl
index e1ef85e..3a09182 100644
--- a/datas/internal/reflector.inl
+++ b/datas/internal/reflector.inl
@@ -214,14 +214,16 @@ Reflector::GetReflectedPair(size_t id, const KVPairFormat &settings) const {
   const auto refInt = GetReflectedInstance().rfStatic;
 
   if (UseNames()) {
-    if (settings.aliasName && refInt->typeAliases[id]) {
+    if (settings.aliasName && refInt->typeAliases &&
+        refInt->typeAliases[id]) {
       retval.name = refInt->typeAliases[id];
     } else {
       retval.name = refInt->typeNames[id];
     }
   }
 
-  if (settings.formatValue && !refInt->typeDescs[id].part1.empty()) {
+  if (settings.formatValue && refInt->typeDescs &&
+      !refInt->typeDescs[id].part1.empty()) {
     retval.value =
         refInt->typeDescs[id].part1.to_string() + ' ' + GetReflectedValue(id);
 
-- 
2.43.0


From 6be170a1429a55ef617be5cffeac1c4a46e86f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 010/107] fix: reflector bit field members touch neighbouring
 memory and lose values

---
 datas/reflector.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index d6f4e92..1d1ad64 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -105,10 +105,13 @@ template <class type> struct LimitProxy<BFTag<type>> {
   const int64 iMin;
 
   LimitProxy(size_t numBits_)
-      : numBits(numBits_), uMax((1 << numBits) - 1), iMax(uMax >> 1),
+      : numBits(numBits_), uMax(~0ULL >> (64 - numBits)), iMax(uMax >> 1),
         iMin(~iMax) {}
 };
 
+template <class type> struct IsSigned : std::is_signed<type> {};
+template <class type> struct IsSigned<BFTag<type>> : std::is_signed<type> {};
+
 template <typename T>
 static Reflector::ErrorType SetNumber(const std::string &input, T &output,
                                       std::true_type,
@@ -117,7 +120,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
   const int base =
       !input.compare(0, 2, "0x") || !input.compare(0, 3, "-0x") ? 16 : 10;
 
-  if (std::is_signed<T>::value) {
+  if (IsSigned<T>::value) {
     int64 value = 0;
     const int64 iMin = proxy.iMin;
     const int64 iMax = proxy.iMax;
@@ -156,7 +159,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
     }
 
     if (input[0] == '-') {
-      value = static_cast<T>(value);
+      value &= iMax;
       printwarning("[Reflector] Applying "
                    << input
                    << " to an unsigned integer, casting to: " << value);
@@ -454,17 +457,26 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
     }
   }
   case REFType::BitFieldMember: {
-    uint64 &output = *reinterpret_cast<uint64 *>(objAddr);
+    // Storage can be smaller than 8 bytes
+    const size_t numBytes = (reflValue.offset + reflValue.subSize + 7) / 8;
+    uint64 output = 0;
+    memcpy(&output, objAddr, numBytes);
     auto doStuff = [&](auto &&insertVal) {
       LimitProxy<typename std::remove_reference<decltype(insertVal)>::type>
           proxy{reflValue.subSize};
       auto err = SetNumber(value, insertVal, std::true_type{}, proxy);
+
+      if (err == Reflector::ErrorType::InvalidFormat) {
+        return err;
+      }
+
       BitMember bfMember;
       bfMember.size = reflValue.subSize;
       bfMember.position = reflValue.offset;
       auto mask = bfMember.GetMask<uint64>();
       output &= ~mask;
-      output |= insertVal.value << reflValue.offset;
+      output |= (static_cast<uint64>(insertVal.value) << reflValue.offset) & mask;
+      memcpy(objAddr, &output, numBytes);
       return err;
     };
 
@@ -827,7 +839,8 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     return _tmpBuffer;
   }
   case REFType::BitFieldMember: {
-    uint64 output = *reinterpret_cast<const uint64 *>(objAddr);
+    uint64 output = 0;
+    memcpy(&output, objAddr, (type.offset + type.subSize + 7) / 8);
     BitMember bfMember;
     bfMember.size = type.subSize;
     bfMember.position = type.offset;
-- 
2.43.0


From ec6764f4cf4b6a577d881293c9536ada1e98a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 011/107] fix: reflector array parser writes past the array for
 empty trailing elements

---
 datas/reflector.cpp | 46 +++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1d1ad64..fda3a23 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -342,6 +342,7 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     return Reflector::ErrorType::EmptyInput;
   }
 
+  Reflector::ErrorType errType = Reflector::ErrorType::None;
   size_t curElement = 0;
   auto curIter = value.begin();
   reflType subVal = reflValue;
@@ -358,38 +359,47 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
   for (auto it = value.begin(); it != value.end(); it++) {
     const bool isEnding = std::next(it) == value.end();
 
-    if ((*it == ']' || *it == '"' || *it == ')' || *it == '}') && localScope)
-      localScope = false;
-
-    if (localScope || *it == '[' || *it == '"' || *it == '(' || *it == '{') {
-      localScope = true;
-      continue;
+    if (localScope) {
+      localScope = *it != ']' && *it != '"' && *it != ')' && *it != '}';
+    } else {
+      localScope = *it == '[' || *it == '"' || *it == '(' || *it == '{';
     }
 
-    if (*it == ',' || isEnding) {
-      es::string_view cValue(curIter, isEnding ? value.end() : it);
+    const bool isSeparator = *it == ',' && !localScope;
+
+    if (isSeparator || isEnding) {
+      es::string_view cValue(curIter, isSeparator ? it : value.end());
       cValue = es::SkipStartWhitespace(cValue);
+      curIter = it + 1;
 
-      if (cValue.empty() && curElement < reflValue.numItems) {
-        printerror("[Reflector] Array expected "
-                   << reflValue.numItems << " but got " << curElement << '.');
-        return Reflector::ErrorType::ShortInput;
-      }
+      if (curElement >= reflValue.numItems) {
+        if (cValue.empty()) {
+          continue;
+        }
 
-      if (!cValue.empty() && curElement >= reflValue.numItems) {
         printerror("[Reflector] Too many array elements, " << reflValue.numItems
                                                            << " expected.");
         return Reflector::ErrorType::OutOfRange;
       }
 
-      SetReflectedMember(subVal, cValue,
-                         objAddr + (reflValue.subSize * curElement));
-      curIter = it + 1;
+      if (cValue.empty()) {
+        printerror("[Reflector] Array expected "
+                   << reflValue.numItems << " but got " << curElement << '.');
+        return Reflector::ErrorType::ShortInput;
+      }
+
+      auto subErrType =
+          SetReflectedMember(subVal, cValue,
+                             objAddr + (reflValue.subSize * curElement));
+
+      if (subErrType != Reflector::ErrorType::None)
+        errType = subErrType;
+
       curElement++;
     }
   }
 
-  return Reflector::ErrorType::None;
+  return errType;
 }
 
 static Reflector::ErrorType
-- 
2.43.0


From 6681612a3048c695c21d5f21a053ee25e33df908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 012/107] fix: reflector cannot set the first array element
 from a number

---
 datas/reflector.cpp | 78 ++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index fda3a23..bdce56f 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -617,22 +617,22 @@ Reflector::SetReflectedValueInt(reflType reflValue, int64 value, size_t subID) {
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::Integer)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -648,22 +648,22 @@ Reflector::ErrorType Reflector::SetReflectedValueUInt(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::UnsignedInteger)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -679,22 +679,22 @@ Reflector::ErrorType Reflector::SetReflectedValueFloat(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::FloatingPoint)
     return Reflector::ErrorType::InvalidDestination;
 
-- 
2.43.0


From 111dee45c40c82ea8e50c43baa2d1af2dbee89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 013/107] fix: reflector clamps positive float underflow to a
 negative value

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index bdce56f..3a3a93e 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -74,7 +74,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
 
     double fVal = atof(input.c_str());
 
-    if (fVal > 0)
+    if (!std::signbit(fVal))
       output = fVal > 1.0 ? fMax : fMin;
     else
       output = fVal < -1.0 ? -fMax : -fMin;
-- 
2.43.0


From 87564e5970edbd6cc2cc767534a95abc5cf08979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 014/107] fix: reflector finds members without an alias by an
 empty name

---
 datas/reflector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 3a3a93e..da70003 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -35,7 +35,8 @@ const reflType *Reflector::GetReflectedType(const JenHash hash) const {
     if (inst->types[t].valueNameHash == hash)
       return GetReflectedType(t);
 
-  if (inst->typeAliasHashes)
+  // Members without an alias have zero alias hash
+  if (inst->typeAliasHashes && hash != 0)
     for (size_t t = 0; t < _ntypes; t++)
       if (inst->typeAliasHashes[t] == hash)
         return GetReflectedType(t);
-- 
2.43.0


From 59afe3c2b7ce33eab260efb9d63616a811530bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 015/107] fix: reflector cannot print negative enumerators

---
 datas/reflector.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index da70003..b888c2a 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -712,7 +712,8 @@ Reflector::ErrorType Reflector::SetReflectedValueFloat(reflType reflValue,
 }
 
 static es::string_view PrintEnumValue(JenHash hash, uint64 value,
-                                      ReflectedEnum **rEnumFallback = nullptr) {
+                                      ReflectedEnum **rEnumFallback = nullptr,
+                                      uint64 mask = ~0ULL) {
   ReflectedEnum &rEnum = rEnumFallback && *rEnumFallback
                              ? **rEnumFallback
                              : REFEnumStorage.at(hash);
@@ -722,7 +723,8 @@ static es::string_view PrintEnumValue(JenHash hash, uint64 value,
 
   const uint64 *valuesEnd = rEnum.values + rEnum.size();
   const uint64 *foundItem = std::find_if(
-      rEnum.values, valuesEnd, [value](uint64 item) { return item == value; });
+      rEnum.values, valuesEnd,
+      [value, mask](uint64 item) { return (item & mask) == value; });
 
   if (foundItem == valuesEnd) {
     throw std::range_error("[Reflector] Enum value not found: " +
@@ -737,7 +739,8 @@ static std::string PrintEnum(const char *objAddr, JenHash hash, uint16 elSize) {
 
   memcpy(reinterpret_cast<char *>(&eValue), objAddr, elSize);
 
-  return PrintEnumValue(hash, eValue);
+  // Negative values are registered sign extended
+  return PrintEnumValue(hash, eValue, nullptr, ~0ULL >> (64 - elSize * 8));
 }
 
 static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
-- 
2.43.0


From b2566248060e63c9a5baf7767397820968901264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 016/107] fix: binary save of nested reflected classes looks up
 members of the outer class

---
 datas/reflector_io.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d142d75..deabfc2 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -422,8 +422,7 @@ public:
   using Reflector::GetReflectedType;
 };
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr);
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr);
 
 static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
                          const char *objAddr, reflType type) {
@@ -488,18 +487,18 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
-    return SaveClass(ri, sri, wr);
+    return SaveClass(sri, wr);
   }
   default:
     return 1;
   }
 }
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr) {
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
   auto refData = inst.Refl();
   const buint128 numItems = refData->nTypes;
   const char *thisAddr = static_cast<const char *>(inst.Instance());
+  const ReflectorPureWrap ri(inst);
   std::stringstream tmpClassBuffer;
 
   BinWritterRef wrTmpClass(tmpClassBuffer);
@@ -535,7 +534,7 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
 
   wr.Write(refData->classHash);
 
-  return SaveClass(ri, inst, wr);
+  return SaveClass(inst, wr);
 }
 
 static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd);
-- 
2.43.0


From 4ea41f892500c045dab964b49b8c0d17d1ecacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 017/107] fix: binary save and load crash on unregistered
 nested classes

---
 datas/reflector_io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index deabfc2..90d7586 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -487,6 +487,10 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
+
+    if (!sri.Refl()) // unregistered class
+      return 1;
+
     return SaveClass(sri, wr);
   }
   default:
@@ -599,6 +603,10 @@ static int LoadDataItem(Reflector &ri, BinReaderRef rd, char *objAddr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
+
+    if (!sri.Refl()) // unregistered class
+      return 1;
+
     return LoadClass(sri, rd);
   }
   default:
-- 
2.43.0


From 2278d6ee9de1b96b0fb8c808336743d859bc999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 018/107] fix: binary load loses member errors and reads past
 chunks of members

---
 datas/reflector_io.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 90d7586..cb6bf07 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -620,45 +620,44 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
   char *thisAddr = static_cast<char *>(inst.Instance());
   buint128 chunkSize;
   rd.Read(chunkSize);
-  rd.Push();
+  const size_t chunkEnd = rd.Tell() + chunkSize;
 
   buint128 numIOItems;
   rd.Read(numIOItems);
 
   if (numIOItems != numItems) {
-    rd.Pop();
-    rd.Skip(chunkSize);
+    rd.Seek(chunkEnd);
     return 1;
   }
 
   int errType = 0;
 
   for (uint32 i = 0; i < numItems; i++) {
-    BinReaderRef rf(rd);
     JenHash valueNameHash;
     buint128 valueChunkSize;
     rd.Read(valueNameHash);
     rd.Read(valueChunkSize);
-    rd.Push();
+    const size_t valueChunkEnd = rd.Tell() + valueChunkSize;
 
     ReflectorPureWrap ri(inst);
     auto &&rif = static_cast<ReflectorFriend &>(static_cast<Reflector &>(ri));
     const reflType *cType = rif.GetReflectedType(valueNameHash);
 
-    if (!cType) {
-      rd.Pop();
-      rd.Skip(valueChunkSize);
-      continue;
-    }
-
-    errType = LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
+    if (cType) {
+      const int itemErrType =
+          LoadDataItem(ri, rd, thisAddr + cType->offset, *cType);
 
-    if (errType) {
-      rd.Pop();
-      rd.Skip(valueChunkSize);
+      if (itemErrType) {
+        errType = itemErrType;
+      }
     }
+
+    // Stored value can be smaller or bigger than the loaded one
+    rd.Seek(valueChunkEnd);
   }
 
+  rd.Seek(chunkEnd);
+
   return errType;
 }
 
-- 
2.43.0


From 6ae2c4870fa11714e1be02fb9a670a4e2327761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 019/107] fix: binary save mixes byte orders on byte swapped
 streams

---
 datas/reflector_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index cb6bf07..8186f10 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -506,6 +506,7 @@ static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
   std::stringstream tmpClassBuffer;
 
   BinWritterRef wrTmpClass(tmpClassBuffer);
+  wrTmpClass.SwapEndian(wr.SwappedEndian());
   wrTmpClass.Write(numItems);
 
   for (size_t i = 0; i < numItems; i++) {
@@ -513,6 +514,7 @@ static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
 
     std::stringstream tmpValueBuffer;
     BinWritterRef wrTmp(tmpValueBuffer);
+    wrTmp.SwapEndian(wr.SwappedEndian());
 
     int rVal = WriteDataItem(ri, wrTmp, thisAddr + refData->types[i].offset,
                              refData->types[i]);
-- 
2.43.0


From e08f410ed8c9183be4dd98e688b2fcfe20dc4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 020/107] fix: alias hashes are missing in saved reflection
 database

---
 datas/reflector_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 8186f10..17e9951 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -148,7 +148,7 @@ int ReflectorIO::Load(BinReaderRef rd) {
     }
 
     if (itemIO->aliassesHashesPtr) {
-      itemPtrsBegin[3] = bufferStart + itemIO->aliassesHashesPtr;
+      itemPtrsBegin[4] = bufferStart + itemIO->aliassesHashesPtr;
     } else {
       itemPtrsBegin[4] = 0;
     }
@@ -405,6 +405,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   classnamesFixups.WriteFixups();
   aliasesFixups.WriteFixups();
   descsFixups.WriteFixups();
+  aliasHashesFixups.WriteFixups();
   wr.Seek(0, std::ios_base::end);
 
   return 0;
-- 
2.43.0


From f081f9f6ab15e2772dd2698e9011600cee6c5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 021/107] fix: reflection database header is written at the
 beginning of a file

---
 datas/reflector_io.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 17e9951..7295676 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -213,6 +213,8 @@ int ReflectorIO::Save(BinWritterRef wr) {
   ReflectorIOHeader hdr;
   hdr.numClasses = static_cast<uint32>(classes.size());
   hdr.numEnums = static_cast<uint32>(enums.size());
+  wr.ResetRelativeOrigin(false);
+  const size_t headerPos = wr.Tell();
   wr.Write(hdr);
   wr.SetRelativeOrigin(wr.Tell(), false);
 
@@ -398,7 +400,8 @@ int ReflectorIO::Save(BinWritterRef wr) {
   }
 
   hdr.bufferSize = static_cast<uint32>(wr.Tell());
-  wr.ResetRelativeOrigin();
+  wr.ResetRelativeOrigin(false);
+  wr.Seek(headerPos);
   wr.Write(hdr);
   itemFixups.WriteFixups();
   itemStringsFixups.WriteFixups();
-- 
2.43.0


From 07d70c5f4e5ae74d860bfdb383e74015de8e570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 022/107] fix: XML save parses member values as XML

---
 datas/reflector_xml.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 2ffaea4..618a443 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -32,6 +32,12 @@ public:
   using Reflector::GetReflectedType;
 };
 
+static void SetText(pugi::xml_node node, const std::string &value) {
+  if (!value.empty()) {
+    node.text().set(value.c_str());
+  }
+}
+
 static bool SaveV2(const reflType &cType, const Reflector &ri,
                    pugi::xml_node thisNode, size_t t,
                    const std::string &varName,
@@ -150,7 +156,7 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
       }
     } else {
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      SetText(cNode, str);
     }
   }
 
@@ -259,14 +265,14 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
       default: {
         pugi::xml_node cNode = thisNode.append_child(varName.c_str());
         std::string str = ri.GetReflectedValue(t);
-        cNode.append_buffer(str.c_str(), str.size());
+        SetText(cNode, str);
         break;
       }
       }
     } else {
       pugi::xml_node cNode = thisNode.append_child(varName.c_str());
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      SetText(cNode, str);
     }
   }
 
-- 
2.43.0


From 0b411677c5106dea6a81967bce4c2c279560dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 023/107] fix: XML load crashes on unknown nodes, bad indices
 and unregistered classes

---
 datas/reflector_xml.cpp | 58 +++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 618a443..7ddd26d 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -32,6 +32,19 @@ public:
   using Reflector::GetReflectedType;
 };
 
+static bool HasInstance(const ReflectedInstance &inst) {
+  return static_cast<const ReflectedInstanceFriend &>(inst).Instance();
+}
+
+static JenHash MakeHash(es::string_view name) {
+  if (name.size() > 1 && name[0] == 'h' && name[1] == ':') {
+    name.remove_prefix(2);
+    return JenHash(strtoul(name.data(), nullptr, 16));
+  } else {
+    return name;
+  }
+}
+
 static void SetText(pugi::xml_node node, const std::string &value) {
   if (!value.empty()) {
     node.text().set(value.c_str());
@@ -292,16 +305,7 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
     size_t index = nan_;
   };
 
-  auto MakeHash = [](es::string_view name) -> JenHash {
-    if (name[0] == 'h' && name[1] == ':') {
-      name.remove_prefix(2);
-      return JenHash(strtoul(name.data(), nullptr, 16));
-    } else {
-      return name;
-    }
-  };
-
-  auto MakeNode = [MakeHash](auto a) {
+  auto MakeNode = [](auto a) {
     es::string_view name(a.name());
     retval retVal;
     const size_t found = name.find('-');
@@ -342,6 +346,11 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
       }
 
       auto rfInst = ri.GetReflectedSubClass(node.hash, node.index);
+
+      if (!HasInstance(rfInst)) {
+        continue;
+      }
+
       ReflectorPureWrap subRefl(rfInst);
       ReflectorXMLUtil::LoadV2(subRefl, a);
       continue;
@@ -354,6 +363,10 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
     auto refType = rif.GetReflectedType(node.hash);
 
+    if (!refType) {
+      continue;
+    }
+
     auto DoVector = [&] {
       for (auto t : a.attributes()) {
         size_t element = -1;
@@ -443,15 +456,6 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
           .Refl();
   pugi::xml_node thisNode;
 
-  auto MakeHash = [](es::string_view name) -> JenHash {
-    if (name[0] == 'h' && name[1] == ':') {
-      name.remove_prefix(2);
-      return JenHash(strtoul(name.data(), nullptr, 16));
-    } else {
-      return name;
-    }
-  };
-
   if (lookupClassNode) {
     thisNode = node.find_child([&](pugi::xml_node nde) {
       return !nde.empty() && MakeHash(nde.name()) == stat->classHash;
@@ -470,14 +474,30 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
     if (ri.IsReflectedSubClass(hash)) {
       if (ri.IsArray(hash)) {
         for (auto sc : a.children()) {
+          es::string_view scName(sc.name());
+
+          if (scName.size() < 3 || scName[0] != 'i' || scName[1] != ':') {
+            continue;
+          }
+
           auto index = atoll(sc.name() + 2);
           auto rfInst = ri.GetReflectedSubClass(hash, index);
+
+          if (!HasInstance(rfInst)) {
+            continue;
+          }
+
           ReflectorPureWrap subRefl(rfInst);
           ReflectorXMLUtil::Load(subRefl, sc);
         }
 
       } else {
         auto rfInst = ri.GetReflectedSubClass(hash);
+
+        if (!HasInstance(rfInst)) {
+          continue;
+        }
+
         ReflectorPureWrap subRefl(rfInst);
         ReflectorXMLUtil::Load(subRefl, a);
       }
-- 
2.43.0


From e1593fe5d2dca3fe6ac10543867642afb8f5b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 024/107] fix: XML save crashes on unregistered nested classes

---
 datas/reflector_xml.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 7ddd26d..74ca9a6 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -156,6 +156,11 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
 
         for (int s = 0; s < numItems; s++) {
           auto subRef = ri.GetReflectedSubClass(t, s);
+
+          if (!HasInstance(subRef)) {
+            continue;
+          }
+
           ReflectorPureWrap subCl(subRef);
           ReflectorXMLUtil::Save(
               subCl, cNode.append_child(("i:" + std::to_string(s)).c_str()),
@@ -164,6 +169,11 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
 
       } else {
         auto subRef = ri.GetReflectedSubClass(t);
+
+        if (!HasInstance(subRef)) {
+          continue;
+        }
+
         ReflectorPureWrap subCl(subRef);
         ReflectorXMLUtil::Save(subCl, cNode, false);
       }
@@ -206,6 +216,11 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
 
         for (int s = 0; s < numItems; s++) {
           auto subRef = ri.GetReflectedSubClass(t, s);
+
+          if (!HasInstance(subRef)) {
+            continue;
+          }
+
           ReflectorPureWrap subCl(subRef);
           auto nodeName = varName + '-' + std::to_string(s);
           pugi::xml_node cNode = thisNode.append_child(nodeName.data());
@@ -217,6 +232,11 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
       } else {
         pugi::xml_node cNode = thisNode.append_child(varName.c_str());
         auto subRef = ri.GetReflectedSubClass(t);
+
+        if (!HasInstance(subRef)) {
+          continue;
+        }
+
         ReflectorPureWrap subCl(subRef);
         auto subOpts = opts;
         subOpts -= Flags_ClassNode;
-- 
2.43.0


From a18ed44aa2e5f6ae03cea1e82aa1855838d12322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 025/107] fix: undefined shift of negative values in binary
 save

---
 datas/reflector_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 7295676..eae7791 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -438,7 +438,8 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
       bint128 tvar;
       memcpy(&tvar, objAddr, type.subSize);
       const size_t shValue = 64 - (type.subSize * 8);
-      tvar.value = (tvar.value << shValue) >> shValue;
+      const uint64 shifted = static_cast<uint64>(tvar.value) << shValue;
+      tvar.value = static_cast<int64>(shifted) >> shValue;
       wr.Write(tvar);
       return 0;
     }
-- 
2.43.0


From 62dd82722912143a8b6eb2facb8758bd6bb18d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 026/107] fix: XML save loses item indices of classes without
 names

---
 datas/reflector_xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 74ca9a6..cbe2fbd 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -116,7 +116,7 @@ static pugi::xml_node MakeNode(const Reflector &ri, const reflectorStatic *stat,
   else {
     className.resize(15);
     const auto cHash = stat->classHash.raw();
-    snprintf(&className[0], 15, "h:%X", cHash);
+    className.resize(snprintf(&className[0], 15, "h:%X", cHash));
   }
 
   return node.append_child(className.c_str());
@@ -131,7 +131,7 @@ static std::string GetName(const Reflector &ri, const reflectorStatic *stat,
   } else {
     varName.resize(15);
     const auto cHash = cType.valueNameHash.raw();
-    snprintf(&varName[0], 15, "h:%X", cHash);
+    varName.resize(snprintf(&varName[0], 15, "h:%X", cHash));
   }
 
   return varName;
-- 
2.43.0


From bc09180ec1354c16320916ebac50a8ff8be4ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 027/107] fix: flushing the printer reads past unterminated or
 failed text

---
 datas/master_printer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index 0a06803..ab42071 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -59,13 +59,17 @@ void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
 }
 
 void MasterPrinterThread::FlushAll() {
+  // A failed stream (null text) might still hold the text before a failure
+  _masterstream.clear();
+
   const size_t buffsize = static_cast<size_t>(_masterstream.tellp()) + 1;
 
   _masterstream.seekp(0);
 
   char *tempOut = static_cast<char *>(malloc(buffsize));
 
-  _masterstream.read(tempOut, buffsize);
+  _masterstream.read(tempOut, buffsize - 1);
+  tempOut[buffsize - 1] = 0;
 
   if (buffsize > static_cast<size_t>(maximumStreamSize))
     _masterstream.str("");
-- 
2.43.0


From 4c261f0f0635bff620db937533657e9b2c37d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 028/107] fix: threaded queue never ends when number of
 hardware threads is unknown

---
 datas/multi_thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/multi_thread.hpp b/datas/multi_thread.hpp
index b31be1a..59f7b5c 100644
--- a/datas/multi_thread.hpp
+++ b/datas/multi_thread.hpp
@@ -23,7 +23,9 @@
 #include <thread>
 
 template <class lmBody> void RunThreadedQueue(size_t numTasks, lmBody &&fc) {
-  const size_t numHWThreads = std::thread::hardware_concurrency();
+  // Number of hardware threads can be unknown
+  const size_t numHWThreads =
+      std::max(std::thread::hardware_concurrency(), 1u);
   const size_t numThreads = std::min(numHWThreads, numTasks);
   size_t curTask = 0;
   using future_type = std::future<decltype(fc(size_t()))>;
-- 
2.43.0


From 8a8e317cd402bbbce712a0ecf4836a5e5a110f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 029/107] fix: string view find and rfind miss or mistake
 matches and read outside of the text

---
 datas/internal/string_view.inl | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 1322ba7..5ab4090 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -294,21 +294,13 @@ namespace es {
   inline typename basic_string_view<CharT, Traits>::size_type
   basic_string_view<CharT, Traits>::find(basic_string_view v,
                                          size_type pos) const {
-    if (v.empty() || v.size() > m_size)
+    if (v.size() > m_size)
       return npos;
 
     const size_type max_index = m_size - v.size();
 
-    for (size_type i = pos; i < max_index; ++i) {
-      size_type j = v.size() - 1;
-
-      if (!j) {
-        j = m_str[i] == v[j] ? 0 : 1;
-      } else {
-        for (;j && v[j] == m_str[i + j]; j--);
-      }
-
-      if (!j)
+    for (size_type i = pos; i <= max_index; ++i) {
+      if (!Traits::compare(m_str + i, v.m_str, v.m_size))
         return i;
     }
 
@@ -350,16 +342,12 @@ namespace es {
                                             size_type pos )
     const
   {
-    const size_type max_index = m_size - v.size();
+    if (v.size() > m_size)
+      return npos;
 
-    for( size_type i = std::min(max_index-1,pos); i != npos; --i ) {
-      size_type j = 0;
-      for( ; j < v.size(); ++j ) {
-        if( v[j] != m_str[i-j] ) {
-          break;
-        }
-      }
-      if(j==v.size()) return i;
+    for( size_type i = std::min(m_size - v.size(),pos); i != npos; --i ) {
+      if( !Traits::compare(m_str + i, v.m_str, v.m_size) )
+        return i;
     }
     return npos;
   }
-- 
2.43.0


From 8f221f27751e8a5912405b70417fad98dcd9a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 030/107] fix: string view backward and negated searches read
 outside of the text or look at first character only

---
 datas/internal/string_view.inl | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 5ab4090..203eee6 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -432,7 +432,10 @@ namespace es {
                                                    size_type pos )
     const
   {
-    for( size_type i = std::min(m_size-1,pos); i >= 0 && i != npos; --i ) {
+    if( empty() )
+      return npos;
+
+    for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
       for( size_type j = 0; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           return i;
@@ -479,12 +482,13 @@ namespace es {
     const
   {
     for( size_type i = pos; i < m_size; ++i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if( j == v.size() ) return i;
     }
     return npos;
   }
@@ -524,13 +528,17 @@ namespace es {
                                                        size_type pos )
     const
   {
+    if( empty() )
+      return npos;
+
     for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if( j == v.size() ) return i;
     }
     return npos;
   }
-- 
2.43.0


From 6fe77cabb4ff1b8699cd77d60ee2e4afdc4fa088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 031/107] fix: string view copy takes one character too many
 and copy and substr refuse end of text

---
 datas/internal/string_view.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 203eee6..abac351 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -212,9 +212,9 @@ namespace es {
                                            size_type pos )
     const
   {
-    if(pos >= m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
+    if(pos > m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
 
-    const size_type rcount = std::min(m_size - pos,count+1);
+    const size_type rcount = std::min(m_size - pos,count);
     std::copy( m_str + pos, m_str + pos + rcount, dest);
     return rcount;
   }
@@ -227,7 +227,7 @@ namespace es {
   {
     const size_type max_length = pos > m_size ? 0 : m_size - pos;
 
-    return pos < m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
+    return pos <= m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
   }
 
   //--------------------------------------------------------------------------
-- 
2.43.0


From 51ef6e334c5ad4329ddfadb488f047edad940658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 032/107] fix: dot in a folder name taken for file extension

---
 datas/fileinfo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 9525952..56ecbe7 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -55,7 +55,7 @@ public:
     else
       endFolder = 0;
 
-    if (!lastDot || lastDot == fullPath.npos)
+    if (!lastDot || lastDot == fullPath.npos || lastDot < endFolder)
       lastDot = fullPath.size();
   }
 
-- 
2.43.0


From a62f3225a452539d7f63ad14efd6681e6ad0587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 033/107] fix: file info keeps stale or unset offsets for empty
 path

---
 datas/fileinfo.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 56ecbe7..c3b08d5 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -30,8 +30,8 @@ public:
 
 private:
   string_type fullPath;
-  size_t endFolder;
-  size_t lastDot;
+  size_t endFolder = 0;
+  size_t lastDot = 0;
 
 public:
   FileInfo(stringref_type input) { Load(input); }
@@ -40,9 +40,6 @@ public:
   void Load(stringref_type input) {
     fullPath = input;
 
-    if (!fullPath.size())
-      return;
-
     for (auto &c : fullPath)
       if (c == '\\')
         c = '/';
-- 
2.43.0


From 543859159e61cbf167455e9dbd3ea42ed76c6f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 034/107] fix: wide file info cannot explode a path

---
 datas/fileinfo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index c3b08d5..ce8089e 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -69,9 +69,9 @@ public:
 
   explode_type Explode() const {
     explode_type resVal;
-    const char *lastOffset = fullPath.data();
+    const T *lastOffset = fullPath.data();
     const size_t fullSize = fullPath.size();
-    const char *pathEnd = std::prev(fullPath.end()).operator->() + 1;
+    const T *pathEnd = fullPath.data() + fullSize;
 
     if (*lastOffset == '/')
       lastOffset++;
-- 
2.43.0


From 03537988f88c532cbb5fae083e478683bf90cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 035/107] fix: file info branch catching loses a separator or
 throws when path begins with the branch

---
 datas/fileinfo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index ce8089e..0bcbe81 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -90,12 +90,13 @@ public:
 
   string_type CatchBranch(const stringref_type &path) const {
     explode_type exVec = Explode();
-    const size_t found = path.find(exVec[0]);
+    const size_t found = exVec.empty() ? path.npos : path.find(exVec[0]);
 
     if (found == path.npos)
       return string_type(path).append(GetFilenameExt());
     else
-      return string_type(path.begin(), found - 1).append(GetFullPath());
+      return string_type(path.begin(), found)
+          .append(exVec[0].begin(), fullPath.data() + fullPath.size());
   }
 };
 
-- 
2.43.0


From 560914275ad036f6c9ed762d2bd4ffca6efa6b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 036/107] fix: lookup3 hash ignores last 12 bytes of longer
 texts of lengths divisible by 12

---
 datas/jenkinshash3.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/jenkinshash3.hpp b/datas/jenkinshash3.hpp
index 9cfd7c0..fccf963 100644
--- a/datas/jenkinshash3.hpp
+++ b/datas/jenkinshash3.hpp
@@ -110,7 +110,12 @@ constexpr uint32 JenkinsHash3_(es::string_view input, uint32 seed = 0) {
     cTrip.Mix();
   }
 
-  size_t lastKeys = input.size() == 12 ? 12 : input.size() % 12;
+  size_t lastKeys = input.size() % 12;
+
+  if (!lastKeys && !input.empty()) {
+    lastKeys = 12;
+  }
+
   JenTriplet_ lastTrip;
 
   if (lastKeys > 8) {
-- 
2.43.0


From b5dbb6c40d3b4e9d0a90b9bc7d55625de4161a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 037/107] fix: small floats decode wrong when negative, zero or
 not half precision and NaN vectors decode as infinity

---
 datas/float.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index f617ee5..2404034 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -27,6 +27,8 @@ public:
   static constexpr size_t SIGN_MASK = _sign ? 1 << (TOTAL_SIZE - 1) : 0;
   static constexpr size_t EXP_REF =
       (0x3f800000 - ((EXPONENT_MASK_NS >> 1) << 23));
+  // Power of 2, whose unit in the last place is the smallest denormal
+  static constexpr size_t DENORM_REF = EXP_REF + ((24 - _mantissa) << 23);
 
   static float ToFloat(size_t value) {
     const IVector4A16 vtored(static_cast<int32>(value));
@@ -47,8 +49,8 @@ public:
         finResult += IVector4A16(EXP_REF, 0, 0, 0);
       }
     } else {
-      finResult *= IVector4A16(0, 0, 1, 1);
-      finResult += IVector4A16(0x3f000000, 0, 0, 0);
+      finResult *= IVector4A16(0, 0, 0, 1);
+      finResult += IVector4A16(DENORM_REF, 0, 0, 0);
     }
 
     const size_t result = _mm_extract_epi32(
@@ -57,7 +59,14 @@ public:
         0);
     const float resultFl = reinterpret_cast<const float &>(result);
 
-    return exponentI ? resultFl : resultFl - 0.5f;
+    if (exponentI) {
+      return resultFl;
+    }
+
+    const uint32 denormRef = DENORM_REF;
+    const float denorm = resultFl - reinterpret_cast<const float &>(denormRef);
+
+    return mskEMSM.Z ? -denorm : denorm;
   }
 
   static size_t FromFloat(float input) {
@@ -141,15 +150,17 @@ public:
     const IVector4A16 nzResult(((exponentI << (23 - _mantissa)) + EXP_REF) |
                                mantissa);
 
-    const auto imNANNZ = _mm_blendv_ps(_to_ps(nzResult)._data,
-                                       _to_ps(IVector4A16(0x7f800000))._data,
-                                       _to_ps(exponentMask)._data);
+    const auto imNANNZ =
+        _mm_blendv_ps(_to_ps(nzResult)._data,
+                      _to_ps(IVector4A16(0x7f800000) | mantissa)._data,
+                      _to_ps(exponentMask)._data);
 
     const IVector4A16 denormMask(
         _mm_cmpeq_epi32(exponentI._data, IVector4A16()._data));
 
-    const IVector4A16 denormResult0((value & MANTISSA_MASK) | 0x3f000000);
-    const Vector4A16 denormResult1(_to_ps(denormResult0) - 0.5f);
+    const IVector4A16 denormRef(DENORM_REF);
+    const IVector4A16 denormResult0((value & MANTISSA_MASK) | denormRef);
+    const Vector4A16 denormResult1(_to_ps(denormResult0) - _to_ps(denormRef));
 
     const IVector4A16 finalResult(_to_se(
         _mm_blendv_ps(imNANNZ, denormResult1._data, _to_ps(denormMask)._data)));
-- 
2.43.0


From 215b9e1d4046322ac0fd408e41ae575ca84f30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 038/107] fix: small floats encode numbers below 1.5, overflows
 and some NaN wrong

---
 datas/float.hpp | 81 +++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 39 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index 2404034..f54c29e 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -29,6 +29,7 @@ public:
       (0x3f800000 - ((EXPONENT_MASK_NS >> 1) << 23));
   // Power of 2, whose unit in the last place is the smallest denormal
   static constexpr size_t DENORM_REF = EXP_REF + ((24 - _mantissa) << 23);
+  static constexpr size_t MIN_NORMAL = EXP_REF + (1 << 23);
 
   static float ToFloat(size_t value) {
     const IVector4A16 vtored(static_cast<int32>(value));
@@ -71,25 +72,30 @@ public:
 
   static size_t FromFloat(float input) {
     const size_t cvted = reinterpret_cast<uint32 &>(input);
-    const float catchDenormal = input + 0.5f;
-    const size_t cvtedDenorm = reinterpret_cast<const uint32 &>(catchDenormal);
-    const size_t mskExp = cvted & 0x7f800000;
-    const bool isSubNorm = (cvtedDenorm & 0x3f000000) == 0x3f000000;
+    const size_t absCvted = cvted & 0x7fffffff;
+    size_t result = 0;
+
+    if (absCvted > 0x7f800000) {
+      // Keep NaN a NaN, even if all remaining mantissa bits are zero
+      const size_t mantissa = (cvted >> (23 - _mantissa)) & MANTISSA_MASK;
+      result = EXPONENT_MASK | (mantissa ? mantissa : MANTISSA_MASK);
+    } else if (absCvted < MIN_NORMAL) {
+      const uint32 denormRef = DENORM_REF;
+      const float catchDenormal =
+          std::fabs(input) + reinterpret_cast<const float &>(denormRef);
+      result = reinterpret_cast<const uint32 &>(catchDenormal) - denormRef;
+    } else {
+      result = (absCvted - EXP_REF) >> (23 - _mantissa);
 
-    size_t result =
-        (isSubNorm ? cvtedDenorm : (cvted >> (23 - _mantissa))) & MANTISSA_MASK;
+      if (result > EXPONENT_MASK) {
+        result = EXPONENT_MASK;
+      }
+    }
 
     if (_sign && cvted & 0x80000000) {
       result |= SIGN_MASK;
     }
 
-    if (mskExp == 0x7f800000) {
-      result |= EXPONENT_MASK;
-    } else if (!isSubNorm) {
-      const size_t unRef = mskExp - EXP_REF;
-      result |= (unRef >> (23 - _mantissa)) & EXPONENT_MASK;
-    }
-
     return result;
   }
 
@@ -106,36 +112,33 @@ public:
     const IVector4A16 shtSign(((cvted & 0x80000000) >> (32 - TOTAL_SIZE)) &
                               SIGN_MASK);
 
-    const IVector4A16 mskExp(cvted & 0x7f800000);
-    const IVector4A16 shtMant(cvted >> (23 - _mantissa));
-
-    value += 0.5f;
-    const IVector4A16 cvtedDenorm = _to_se(value);
-    const IVector4A16 mskExpDenorm(cvtedDenorm & 0x7f800000);
-
+    const IVector4A16 absCvted(cvted & 0x7fffffff);
+    const IVector4A16 denormRef(DENORM_REF);
+    const IVector4A16 denorm(_to_se(_to_ps(absCvted) + _to_ps(denormRef)) -
+                             denormRef);
     const IVector4A16 denormMask(
-        _mm_cmpeq_epi32(mskExpDenorm._data, IVector4A16(0x3f000000)._data));
-
-    const Vector4A16 blendMant(_mm_blendv_ps(_to_ps(shtMant)._data,
-                                             _to_ps(cvtedDenorm)._data,
-                                             _to_ps(denormMask)._data));
-    const IVector4A16 maskedMant(_to_se(blendMant) & MANTISSA_MASK);
-
+        _mm_cmplt_epi32(absCvted._data, IVector4A16(MIN_NORMAL)._data));
+
+    // Out of range values and infinity
+    const IVector4A16 normal((absCvted - EXP_REF) >> (23 - _mantissa));
+    const IVector4A16 clamped(
+        _mm_min_epi32(normal._data, IVector4A16(EXPONENT_MASK)._data));
+
+    // Keep NaN a NaN, even if all remaining mantissa bits are zero
+    const IVector4A16 shtMant((cvted >> (23 - _mantissa)) & MANTISSA_MASK);
+    const IVector4A16 zeroMant(
+        _mm_cmpeq_epi32(shtMant._data, IVector4A16()._data));
+    const IVector4A16 nan(shtMant | (zeroMant & MANTISSA_MASK) |
+                          EXPONENT_MASK);
     const IVector4A16 nanMask(
-        _mm_cmpeq_epi32(mskExp._data, IVector4A16(0x7f800000)._data));
-
-    const IVector4A16 unRef(((mskExp - EXP_REF) >> (23 - _mantissa)) &
-                            EXPONENT_MASK);
-
-    const Vector4A16 blendExp0(_mm_blendv_ps(_to_ps(unRef)._data,
-                                             _to_ps(EXPONENT_MASK)._data,
-                                             _to_ps(nanMask)._data));
+        _mm_cmpgt_epi32(absCvted._data, IVector4A16(0x7f800000)._data));
 
-    const Vector4A16 blendExp1(_mm_blendv_ps(blendExp0._data,
-                                            Vector4A16()._data,
-                                             _to_ps(denormMask)._data));
+    const IVector4A16 blend0(
+        _mm_blendv_epi8(clamped._data, denorm._data, denormMask._data));
+    const IVector4A16 blend1(
+        _mm_blendv_epi8(blend0._data, nan._data, nanMask._data));
 
-    return _to_se(blendExp1) | maskedMant | shtSign;
+    return blend1 | shtSign;
   }
 
   static Vector4A16 ToVector4(IVector4A16 value) {
-- 
2.43.0


From 39932e2b9bc3e326a5ccc0e4998a24620b31b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 039/107] fix: R11G11B10 floats decode with wrong mantissa size
 and sign

---
 datas/float.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index f54c29e..0c2ed49 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -176,12 +176,14 @@ typedef esFloat<10, 5, true> float16;
 
 struct VectorR11G11B10_UFLOAT {
   uint32 data;
-  typedef esFloat<11, 5, false> codec_type;
+  typedef esFloat<6, 5, false> codec_type;
 
   operator Vector4A16() const {
     const IVector4A16 input0(IVector4A16(data) *
                              IVector4A16(1 << 21, 1 << 10, 1, 0));
-    const IVector4A16 input1(input0 >> 21);
+    // Z has 5 bit mantissa
+    const IVector4A16 input1((input0 >> 21) &
+                             IVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(input1);
   }
-- 
2.43.0


From 0ff0b5c39621a6bda16eacf673cb549eecd78f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 040/107] fix: uni formats R32G32, R32, R16G16B16 and R8G8B8
 read behind the value

---
 uni/internal/format_full.hpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 5f3659d..53c2d99 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -99,15 +99,15 @@ public:
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32G32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
+    const auto inputRC = *reinterpret_cast<const IVector2 *>(input);
     return IVector4A16(inputRC.X, inputRC.Y, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
-    return IVector4A16(inputRC.X, 0, 0, 0);
+    const auto inputRC = *reinterpret_cast<const int32 *>(input);
+    return IVector4A16(inputRC, 0, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R16G16B16A16> {
@@ -354,11 +354,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R16G16B16> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint64 rtVal = reinterpret_cast<const uint64 &>(*input);
-    UIVector4A16 vctr(_mm_set1_epi64x(rtVal)); // XY, ZW, XY, ZW
-    const UIVector4A16 result((vctr * UIVector4A16(1 << 16, 1 << 16, 1, 0)) >>
-                              16); // X, Z, Y, W
-    return _mm_shuffle_epi32(result._data, _MM_SHUFFLE(3, 1, 2, 0));
+    const auto inputRC = *reinterpret_cast<const USVector *>(input);
+    return UIVector4A16(inputRC.X, inputRC.Y, inputRC.Z, 0);
   }
 
   static Vector4A16 GetValue(const char *input) {
@@ -404,9 +401,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R8G8B8> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint32 rtVal = reinterpret_cast<const uint32 &>(*input);
-    UIVector4A16 vctr(rtVal);
-    return (vctr * UIVector4A16(1 << 24, 1 << 16, 1 << 8, 0)) >> 24;
+    const auto inputRC = *reinterpret_cast<const UCVector *>(input);
+    return UIVector4A16(inputRC.X, inputRC.Y, inputRC.Z, 0);
   }
 
   static Vector4A16 GetValue(const char *input) {
-- 
2.43.0


From 6178ba7375fe53dc2ce941883c80007f1df972a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 041/107] fix: Z of R11G11B10 float formats depends on Y

---
 uni/internal/format_full.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 53c2d99..bd6ded5 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -756,7 +756,9 @@ template <> class FormatCodec_t<FormatType::FLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // Lowest bit of Z belongs to Y
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
@@ -768,7 +770,9 @@ template <> class FormatCodec_t<FormatType::UFLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // Lowest bit of Z belongs to Y
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
-- 
2.43.0


From 102c28cc178a2aa9a7de2f3dbd16b28299e44f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 042/107] fix: compound or of scalar 4 component vectors does
 and

---
 datas/vectors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index f4cb016..1874290 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -356,7 +356,7 @@ public:
   vec_ref operator*=(vec_cref input) { return *this = *this * input; }
   vec_ref operator/=(vec_cref input) { return *this = *this / input; }
   vec_ref operator&=(vec_cref input) { return *this = *this & input; }
-  vec_ref operator|=(vec_cref input) { return *this = *this & input; }
+  vec_ref operator|=(vec_cref input) { return *this = *this | input; }
   vec_ref operator>>=(shift_vec input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_vec input) { return *this = *this << input; }
 
@@ -365,7 +365,7 @@ public:
   vec_ref operator*=(value_type input) { return *this = *this * input; }
   vec_ref operator/=(value_type input) { return *this = *this / input; }
   vec_ref operator&=(value_type input) { return *this = *this & input; }
-  vec_ref operator|=(value_type input) { return *this = *this & input; }
+  vec_ref operator|=(value_type input) { return *this = *this | input; }
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-- 
2.43.0


From 50181db305b386b4252aa5eebec714f352f4712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 043/107] fix: scalar 4 component vector operators with a
 single value do not compile

---
 datas/vectors.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index 1874290..2ba3c63 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -327,22 +327,22 @@ public:
   }
 
   vector operator+(value_type input) const {
-    return *this = *this + vector(input);
+    return *this + vector(input);
   }
   vector operator-(value_type input) const {
-    return *this = *this - vector(input);
+    return *this - vector(input);
   }
   vector operator*(value_type input) const {
-    return *this = *this * vector(input);
+    return *this * vector(input);
   }
   vector operator/(value_type input) const {
-    return *this = *this / vector(input);
+    return *this / vector(input);
   }
   vector operator&(value_type input) const {
-    return *this = *this & vector(input);
+    return *this & vector(input);
   }
   vector operator|(value_type input) const {
-    return *this = *this | vector(input);
+    return *this | vector(input);
   }
   vector operator>>(shift_value input) const {
     return *this = *this >> vector(input);
-- 
2.43.0


From 758a4c57ae8bf84a91bd07a01983bc46882eeb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 044/107] fix: shifting vectors by a single value compiles for
 signed integers only

---
 datas/vectors.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index 2ba3c63..a91d29b 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -69,8 +69,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector2<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector2<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -197,8 +201,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -345,10 +353,10 @@ public:
     return *this | vector(input);
   }
   vector operator>>(shift_value input) const {
-    return *this = *this >> vector(input);
+    return *this >> V4ScalarType<shift_value>(input);
   }
   vector operator<<(shift_value input) const {
-    return *this = *this << vector(input);
+    return *this << V4ScalarType<shift_value>(input);
   }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
-- 
2.43.0


From 4dd2b09af9275360f7ec1fedd662d761d6b1dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 045/107] fix: SIMD vector with different W is symetrical

---
 datas/vectors_simd.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index 7b2e079..65798bf 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -170,9 +170,7 @@ public:
 
   // Check if X == Y == Z == W
   bool IsSymetrical() const {
-    const store_type temp =
-        _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(3, 1, 0, 2));
-    return Compare(_mm_hsub_ps(_data, _data), _mm_hsub_ps(temp, temp));
+    return Compare(_data, _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(0, 0, 0, 0)));
   }
 
   // Return -1 if [X | Y | Z | W] < 0
-- 
2.43.0


From 6092eed7a44d6f17cc30c3c83c4060ca1d595b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 046/107] fix: wide text of vectors does not compile

---
 datas/vectors_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/vectors_string.hpp b/datas/vectors_string.hpp
index 7125d94..02eb461 100644
--- a/datas/vectors_string.hpp
+++ b/datas/vectors_string.hpp
@@ -34,16 +34,16 @@ template <class C> string to_string(const t_Vector4_<C> &type) {
          ' ' + to_string(type.w);
 }
 
-template <class C> string to_wstring(const t_Vector2<C> &type) {
+template <class C> wstring to_wstring(const t_Vector2<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y);
 }
 
-template <class C> string to_wstring(const t_Vector<C> &type) {
+template <class C> wstring to_wstring(const t_Vector<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
          to_wstring(type.z);
 }
 
-template <class C> string to_wstring(const t_Vector4_<C> &type) {
+template <class C> wstring to_wstring(const t_Vector4_<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
          to_wstring(type.z) + L' ' + to_wstring(type.w);
 }
-- 
2.43.0


From 6ceec6a58b1778c4b89d16263fdbde171ba88c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 047/107] fix: negated unsigned 4 component vectors are
 undefined

---
 datas/vectors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index a91d29b..42f9e93 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -377,7 +377,7 @@ public:
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-  vector operator-() const { return *this * -1.f; }
+  vector operator-() const { return *this * -1; }
 
   bool IsSymetrical() const { return (X == Y) && (X == Z) && (Z == W); }
 
-- 
2.43.0


From 092bc8e89a0bcbabf55ca2b9dc428121eb9ad7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 048/107] fix: signed left shift in the 24/8 bit normalised
 format

---
 uni/internal/format_full.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index bd6ded5..fb95018 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -644,7 +644,8 @@ public:
 template <> class FormatCodec_t<FormatType::NORM, DataType::R24G8> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const int32 rtVal0 = reinterpret_cast<const int32 &>(*input) << 8;
+    const int32 rtVal0 = static_cast<int32>(
+        reinterpret_cast<const uint32 &>(*input) << 8);
     const int8 rtVal1 =
         static_cast<int8>(reinterpret_cast<const int32 &>(*input) >> 24);
 
-- 
2.43.0


From 4560ae6918c26a94fea162878646e933f528c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 049/107] fix: growing or copying a container over linked
 memory reused that memory

---
 datas/allocator_hybrid.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 4ada4c8..0507e2e 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -53,6 +53,8 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
   typedef std::true_type propagate_on_container_move_assignment;
 
   pointer buffer;
+  // External buffer can be handed over only once
+  bool bufferUsed = false;
 
   allocator_hybrid() noexcept : buffer(nullptr) {}
 
@@ -63,18 +65,21 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
 
   allocator_hybrid(const allocator_hybrid<value_type> &input) noexcept {
     buffer = input.buffer;
+    bufferUsed = input.bufferUsed;
   }
 
   _DECLSPEC_ALLOCATOR pointer allocate(size_t count) {
-    if (!buffer)
+    if (!buffer || bufferUsed)
       return static_cast<pointer>(operator new(count * sizeof(value_type)));
-    else
-      return buffer;
+
+    bufferUsed = true;
+    return buffer;
   }
 
   void deallocate(pointer ptr, size_t) {
     if (buffer == ptr) {
       buffer = nullptr;
+      bufferUsed = false;
       return;
     }
 
-- 
2.43.0


From af4d3d64fe10f9b3521199ed1d5dd4fb5521fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 050/107] fix: errors of unsupported uni calls lost their type
 and message

---
 uni/internal/exception.hpp | 10 +++++-----
 uni/internal/model.inl     |  4 ++--
 uni/internal/motion.inl    |  8 ++++----
 uni/internal/skeleton.inl  |  4 ++--
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/uni/internal/exception.hpp b/uni/internal/exception.hpp
index 914921d..7b9ec11 100644
--- a/uni/internal/exception.hpp
+++ b/uni/internal/exception.hpp
@@ -20,15 +20,15 @@
 
 namespace _uni_ {
 
-inline std::exception ThrowVoidCall(bool logical) {
+[[noreturn]] inline void ThrowVoidCall(bool logical) {
   if (logical) {
-    return std::logic_error("Unhandled call!");
+    throw std::logic_error("Unhandled call!");
   } else {
-    return std::runtime_error("Unsupported call!");
+    throw std::runtime_error("Unsupported call!");
   }
 }
-template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
-  return ThrowVoidCall(expected == exValue);
+template <class C, C exValue> [[noreturn]] void ThrowVoidCall(C expected) {
+  ThrowVoidCall(expected == exValue);
 }
 } // namespace _uni_
 
diff --git a/uni/internal/model.inl b/uni/internal/model.inl
index 1b86628..328d664 100644
--- a/uni/internal/model.inl
+++ b/uni/internal/model.inl
@@ -19,10 +19,10 @@
 
 namespace uni {
 inline void Skin::GetTM(RTSValue &, size_t) const {
-  throw _uni_::ThrowVoidCall<TransformType, TMTYPE_RTS>(this->TMType());
+  _uni_::ThrowVoidCall<TransformType, TMTYPE_RTS>(this->TMType());
 }
 inline void Skin::GetTM(esMatrix44 &, size_t) const {
-  throw _uni_::ThrowVoidCall<TransformType, TMTYPE_MATRIX>(this->TMType());
+  _uni_::ThrowVoidCall<TransformType, TMTYPE_MATRIX>(this->TMType());
 }
 
 inline void PrimitiveDescriptor::Resample(FormatCodec::fvec &data) const {
diff --git a/uni/internal/motion.inl b/uni/internal/motion.inl
index 54d824f..9d020a3 100644
--- a/uni/internal/motion.inl
+++ b/uni/internal/motion.inl
@@ -19,22 +19,22 @@
 
 namespace uni {
 inline void MotionTrack::GetValue(RTSValue &, float) const {
-  throw _uni_::ThrowVoidCall<MotionTrack::TrackType_e,
+  _uni_::ThrowVoidCall<MotionTrack::TrackType_e,
                              MotionTrack::PositionRotationScale>(
       this->TrackType());
 }
 inline void MotionTrack::GetValue(esMatrix44 &, float) const {
-  throw _uni_::ThrowVoidCall<MotionTrack::TrackType_e, MotionTrack::Matrix>(
+  _uni_::ThrowVoidCall<MotionTrack::TrackType_e, MotionTrack::Matrix>(
       this->TrackType());
 }
 inline void MotionTrack::GetValue(Vector4A16 &, float) const {
   const auto ttype = this->TrackType();
-  throw _uni_::ThrowVoidCall(ttype == MotionTrack::Position ||
+  _uni_::ThrowVoidCall(ttype == MotionTrack::Position ||
                              ttype == MotionTrack::Rotation ||
                              ttype == MotionTrack::Scale);
 }
 inline void MotionTrack::GetValue(float &, float) const {
-  throw _uni_::ThrowVoidCall<MotionTrack::TrackType_e,
+  _uni_::ThrowVoidCall<MotionTrack::TrackType_e,
                              MotionTrack::SingleFloat>(this->TrackType());
 }
 
diff --git a/uni/internal/skeleton.inl b/uni/internal/skeleton.inl
index 6955e2c..9727eec 100644
--- a/uni/internal/skeleton.inl
+++ b/uni/internal/skeleton.inl
@@ -19,9 +19,9 @@
 
 namespace uni {
 inline void Bone::GetTM(RTSValue &) const {
-  throw _uni_::ThrowVoidCall<TransformType, TMTYPE_RTS>(this->TMType());
+  _uni_::ThrowVoidCall<TransformType, TMTYPE_RTS>(this->TMType());
 }
 inline void Bone::GetTM(esMatrix44 &) const {
-  throw _uni_::ThrowVoidCall<TransformType, TMTYPE_MATRIX>(this->TMType());
+  _uni_::ThrowVoidCall<TransformType, TMTYPE_MATRIX>(this->TMType());
 }
 } // namespace uni
-- 
2.43.0


From 3f92a57be9b1132f705af4133e40c8814a40a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 051/107] fix: ModifyError could not be caught as a standard
 exception

---
 uni/internal/exception.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uni/internal/exception.hpp b/uni/internal/exception.hpp
index 7b9ec11..76f923d 100644
--- a/uni/internal/exception.hpp
+++ b/uni/internal/exception.hpp
@@ -33,16 +33,16 @@ template <class C, C exValue> [[noreturn]] void ThrowVoidCall(C expected) {
 } // namespace _uni_
 
 namespace uni {
-class ModifyError : std::runtime_error {
+class ModifyError : public std::runtime_error {
   using parent = std::runtime_error;
 
 public:
   explicit ModifyError(const std::string &modifyName)
       : parent(std::string("Setting ") + modifyName +
-               "is forbidden for this class!") {}
+               " is forbidden for this class!") {}
 
   explicit ModifyError(const char *modifyName)
       : parent(std::string("Setting ") + modifyName +
-               "is forbidden for this class!") {}
+               " is forbidden for this class!") {}
 };
 } // namespace uni
-- 
2.43.0


From 3cf1b4592bce01d83e54d8e3554ae18a163bf31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 052/107] fix: constant relative pointers could not be
 dereferenced

---
 datas/pointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index d7e7cff..56e40a9 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -86,7 +86,7 @@ public:
                         reinterpret_cast<const char *>(&varPtr) + varPtr)
                   : nullptr;
   }
-  const C &operator*() const { return *static_cast<C *>(*this); }
+  const C &operator*() const { return *static_cast<const C *>(*this); }
   const C *operator->() const { return *this; }
 
   bool Fixed() const {
-- 
2.43.0


From 4559bbf7a26d94e92d3539969cbe0104088da55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 053/107] fix: a relative pointer assigned a null pointed at
 garbage

---
 datas/pointer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index 56e40a9..eeee7c2 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -113,8 +113,9 @@ public:
 
   PointerX86 &operator=(C *newDest) {
     uintptr_t _rawDest = reinterpret_cast<uintptr_t>(newDest);
-    varPtr =
-        static_cast<uint32>(_rawDest - reinterpret_cast<uintptr_t>(&varPtr));
+    varPtr = newDest ? static_cast<uint32>(
+                           _rawDest - reinterpret_cast<uintptr_t>(&varPtr))
+                     : 0;
 
     return *this;
   }
-- 
2.43.0


From 37ee9eca5a987883ff09f870eb28fb365e7d3cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 054/107] fix: a container linked to an empty range wrote into
 it

---
 datas/allocator_hybrid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 0507e2e..f7b3f88 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -34,12 +34,13 @@ struct allocator_hybrid_base {
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start,
                           typename C::pointer end) {
-    input = C(start, end, typename C::allocator_type(start));
+    input = start == end ? C()
+                         : C(start, end, typename C::allocator_type(start));
   }
 
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start, size_t count) {
-    input = C(start, start + count, typename C::allocator_type(start));
+    LinkStorage(input, start, start + count);
   }
 };
 
-- 
2.43.0


From b462f25dfdf508415e2d271a54fdf2d064d3fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 055/107] fix: Blowfish key bytes above 127 were sign extended
 over the rest of the key

---
 datas/encrypt/blowfish.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index 63fbbf9..c63020e 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -462,7 +462,7 @@ void BlowfishEncoder::SetKey(es::string_view key) {
   uint64 lastblock = 0;
 
   memcpy(sboxes, BF_SBOXES, BF_NUMSBOXES * 4);
-  auto inKey = key.data();
+  auto inKey = reinterpret_cast<const uint8 *>(key.data());
   auto inSize = key.size();
 
   for (int i = 0; i < BF_NUMPBOXES; i++) {
@@ -470,7 +470,7 @@ void BlowfishEncoder::SetKey(es::string_view key) {
     const uint32 keyEntry = *(inKey + ((curKey + 3) % inSize)) |
                             (*(inKey + ((curKey + 2) % inSize)) << 8) |
                             (*(inKey + ((curKey + 1) % inSize)) << 16) |
-                            (*(inKey + ((curKey) % inSize)) << 24);
+                            (static_cast<uint32>(*(inKey + ((curKey) % inSize))) << 24);
 
     pboxes[i] = BF_PBOXES[i] ^ keyEntry;
   }
-- 
2.43.0


From 82d36abbb242737d50f0fbb77da648a17d54e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 056/107] fix: an empty Blowfish key divided by zero

---
 datas/encrypt/blowfish.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index c63020e..d47582f 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -19,6 +19,7 @@
 #include "blowfish2.h"
 #include <cstring>
 #include <random>
+#include <stdexcept>
 
 #define _BF_SBKEY(_item, _id) sboxes[(_id * 256) + _item.b[3 - _id]]
 #define BF_SBKEY(_item)                                                        \
@@ -456,6 +457,9 @@ void BlowfishEncoder::DecodeOFB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::SetKey(es::string_view key) {
+  if (key.empty())
+    throw std::invalid_argument("Blowfish key cannot be empty.");
+
   if (mode)
     CreateVector();
 
-- 
2.43.0


From bb4e6b0603d34e119093c7f5f054a35d60daf70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 057/107] fix: XOREncoder kept a reference to a key that may be
 gone

---
 datas/encrypt/xorenc.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/encrypt/xorenc.hpp b/datas/encrypt/xorenc.hpp
index d778b32..b9c62a4 100644
--- a/datas/encrypt/xorenc.hpp
+++ b/datas/encrypt/xorenc.hpp
@@ -19,9 +19,10 @@
 #pragma once
 #include "encryptor.hpp"
 #include "supercore.hpp"
+#include <string>
 
 class XOREncoder : public IEncryptor {
-  es::string_view key;
+  std::string key;
 
 public:
   void Encode(char *buffer, size_t size) const {
@@ -31,5 +32,5 @@ public:
 
   void Decode(char *buffer, size_t size) const { Encode(buffer, size); }
 
-  void SetKey(es::string_view iKey) { key = iKey; }
+  void SetKey(es::string_view iKey) { key.assign(iKey.data(), iKey.size()); }
 };
\ No newline at end of file
-- 
2.43.0


From b317e7fc70d91da54891e3cb64fd51bb4b746554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 058/107] fix: XOREncoder without a key divided by zero

---
 datas/encrypt/xorenc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datas/encrypt/xorenc.hpp b/datas/encrypt/xorenc.hpp
index b9c62a4..ef0ac92 100644
--- a/datas/encrypt/xorenc.hpp
+++ b/datas/encrypt/xorenc.hpp
@@ -26,6 +26,9 @@ class XOREncoder : public IEncryptor {
 
 public:
   void Encode(char *buffer, size_t size) const {
+    if (key.empty())
+      return;
+
     for (size_t ii = 0; ii < size; ii++)
       buffer[ii] ^= key[ii % key.size()];
   }
-- 
2.43.0


From 88d67f93810194a53408740016cb28fa992b4e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 059/107] fix: a moved ZIP file kept reading from the
 moved-from buffer

---
 datas/zip_vfs.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index f8ebbae..580a432 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -28,6 +28,13 @@ struct ZIPVFSFile {
   operator BinReaderRef() const { return reader; }
 
   ZIPVFSFile(std::string &&str) : buffer(str), reader(buffer){};
+  // Reader must refer to its own buffer
+  ZIPVFSFile(ZIPVFSFile &&other)
+      : buffer(std::move(other.buffer)), reader(buffer) {}
+  ZIPVFSFile &operator=(ZIPVFSFile &&other) {
+    buffer = std::move(other.buffer);
+    return *this;
+  }
 };
 
 class ZIPVFS : std::map<std::string, std::pair<size_t, size_t>> {
-- 
2.43.0


From 7d5f1ed545c13175ffbed89c8fb1760d7493507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 060/107] fix: truncated ZIP files listed garbage, large
 entries sent the reader backwards

---
 datas/zip_vfs.hpp | 56 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 580a432..4659de4 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -67,21 +67,39 @@ public:
 private:
   BinReaderRef rd;
   mutable std::mutex rdMutex;
+  size_t fileSize;
+
+  // Skips block's data, fails if the file ends before
+  void SkipData(size_t dataSize) {
+    const size_t dataBegin = rd.Tell();
+
+    if (dataBegin > fileSize || dataSize > fileSize - dataBegin) {
+      throw std::runtime_error("Unexpected end of ZIP file!");
+    }
+
+    rd.Seek(dataBegin + dataSize);
+  }
+
+  template <class C> void ReadHeader(C &hdr) {
+    rd.Read(hdr);
+    SkipData(0);
+  }
 
   void ReadEntry() {
-    uint32 id;
+    uint32 id = 0;
     rd.Push();
-    rd.Read(id);
+    ReadHeader(id);
     rd.Pop();
 
     switch (id) {
     case ZIPLocalFile::ID: {
       ZIPLocalFile hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
 
       [&] {
         if (!hdr.compressedSize) {
-          rd.Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.uncompressedSize);
+          SkipData(size_t(hdr.fileNameSize) + hdr.extraFieldSize +
+                   hdr.uncompressedSize);
           return;
         }
 
@@ -99,50 +117,52 @@ private:
 
         std::string path;
         rd.ReadContainer(path, hdr.fileNameSize);
-        rd.Skip(hdr.extraFieldSize);
-        emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
-        rd.Skip(hdr.compressedSize);
+        SkipData(hdr.extraFieldSize);
+        const size_t dataBegin = rd.Tell();
+        SkipData(hdr.compressedSize);
+        emplace(std::move(path), std::make_pair(dataBegin, hdr.compressedSize));
       }();
       break;
     }
 
     case ZIPFile::ID: {
       ZIPFile hdr;
-      rd.Read(hdr);
-      rd.Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.fileCommentSize);
+      ReadHeader(hdr);
+      SkipData(size_t(hdr.fileNameSize) + hdr.extraFieldSize +
+               hdr.fileCommentSize);
       break;
     };
 
     case ZIPCentralDir::ID: {
       ZIPCentralDir hdr;
-      rd.Read(hdr);
-      rd.Skip(hdr.commentSize);
+      ReadHeader(hdr);
+      SkipData(hdr.commentSize);
       break;
     }
 
     case ZIP64CentralDir::ID: {
       ZIP64CentralDir hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
       break;
     }
 
     case ZIP64CentralDirLocator::ID: {
       ZIP64CentralDirLocator hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
       break;
     }
 
     case ZIPSignature::ID: {
       ZIPSignature hdr;
-      rd.Read(hdr);
-      rd.Skip(hdr.dataSize);
+      ReadHeader(hdr);
+      SkipData(hdr.dataSize);
       break;
     }
 
     case ZIPExtraData::ID: {
       ZIPExtraData hdr;
-      rd.Read(hdr);
-      rd.Skip(hdr.dataSize);
+      ReadHeader(hdr);
+      SkipData(hdr.dataSize);
       break;
     }
 
@@ -154,7 +174,7 @@ private:
   }
 
   void Read() {
-    const size_t fileSize = rd.GetSize();
+    fileSize = rd.GetSize();
     while (rd.Tell() < fileSize) {
       ReadEntry();
     }
-- 
2.43.0


From 7cc13c3e865fd2bd0e2714b2b030d8849c091d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 061/107] fix: ZIP64 central directory records with extensible
 data were not skipped whole

---
 datas/zip_vfs.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 4659de4..786b0d1 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -143,6 +143,8 @@ private:
     case ZIP64CentralDir::ID: {
       ZIP64CentralDir hdr;
       ReadHeader(hdr);
+      // dirRecord doesn't count itself and the bytes before it
+      SkipData(hdr.dirRecord > 44 ? hdr.dirRecord - 44 : 0);
       break;
     }
 
-- 
2.43.0


From fa79b1000a988680c07bb21dba66ce53a8c0b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 062/107] fix: a DDS header with many mipmaps wrote past the
 mipmap tables

---
 formats/DDS.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 13ef396..fe3356e 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -467,6 +467,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       return 0;
 
     uint32 _mipCount = mipMapCount ? mipMapCount : 1;
+
+    if (_mipCount > Mips::maxMips)
+      _mipCount = Mips::maxMips;
+
     uint32 _width = width;
     uint32 _height = height;
     uint32 fullBuffer = 0;
-- 
2.43.0


From b622ce5fef465491597c201b380eeb09d59f7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 063/107] fix: an unknown DXGI format read past the bits per
 pixel table

---
 formats/DDS.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index fe3356e..8f42a7e 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -413,7 +413,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     DDS_PixelFormat &tformat = static_cast<DDS_PixelFormat &>(*this);
 
     if (tformat == DDSFormat_DX10) {
-      bpp = _bpps[dxgiFormat];
+      if (dxgiFormat < sizeof(_bpps) / sizeof(*_bpps))
+        bpp = _bpps[dxgiFormat];
     } else {
       switch (fourCC) {
       case 36:
-- 
2.43.0


From edf275dd730ba343c5e30f313ab0b2978d8892a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 064/107] fix: the last mipmaps of DDS textures that are not
 square had no size

---
 formats/DDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 8f42a7e..dccbf28 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -529,8 +529,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
-      _width /= 2;
-      _height /= 2;
+      _width = _width > 1 ? _width / 2 : _width;
+      _height = _height > 1 ? _height / 2 : _height;
     }
 
     return fullBuffer;
-- 
2.43.0


From d4622c5e1b22612e0fe9463a72947e9a26cee2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 065/107] fix: sizes of block compressed DDS mipmaps did not
 cover partial blocks

---
 formats/DDS.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index dccbf28..f9f0e98 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -521,9 +521,9 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     for (uint32 m = 0; m < _mipCount; m++) {
       uint32 __width = _width, __height = _height;
 
-      if (useBlockCompression && (__width * __height < 16)) {
-        __width = 4;
-        __height = 4;
+      if (useBlockCompression) {
+        __width = (__width + 3) & ~3u;
+        __height = (__height + 3) & ~3u;
       }
 
       dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
-- 
2.43.0


From 967a212e877109b66bcdeaa0a967872f29a7173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 066/107] fix: sizes of large DDS textures overflowed

---
 formats/DDS.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index f9f0e98..cafcee8 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -526,7 +526,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         __height = (__height + 3) & ~3u;
       }
 
-      dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
+      dOut.sizes[m] = static_cast<uint32>(
+          (static_cast<uint64>(__width) * __height * bpp + 7) / 8);
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
       _width = _width > 1 ? _width / 2 : _width;
-- 
2.43.0


From d1e8790a1d0e6abf57b27c47bbbf2ef1c0e74631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 067/107] fix: typeless block compressed DDS formats were sized
 as plain ones

---
 formats/DDS.hpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index cafcee8..58cc6ba 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -478,26 +478,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     bool useBlockCompression = false;
 
     if (dxgiFormat) {
-      switch (dxgiFormat) {
-      case DXGI_FORMAT_BC1_UNORM:
-      case DXGI_FORMAT_BC1_UNORM_SRGB:
-      case DXGI_FORMAT_BC2_UNORM:
-      case DXGI_FORMAT_BC2_UNORM_SRGB:
-      case DXGI_FORMAT_BC3_UNORM:
-      case DXGI_FORMAT_BC3_UNORM_SRGB:
-      case DXGI_FORMAT_BC4_UNORM:
-      case DXGI_FORMAT_BC4_SNORM:
-      case DXGI_FORMAT_BC5_UNORM:
-      case DXGI_FORMAT_BC5_SNORM:
-      case DXGI_FORMAT_BC6H_UF16:
-      case DXGI_FORMAT_BC6H_SF16:
-      case DXGI_FORMAT_BC7_UNORM:
-      case DXGI_FORMAT_BC7_UNORM_SRGB:
-        useBlockCompression = true;
-        break;
-      default:
-        break;
-      }
+      useBlockCompression = IsBC(dxgiFormat);
     } else {
       switch (fourCC) {
       case CompileFourCC("DXT1"):
-- 
2.43.0


From 836ba54bc6cc2c2e01384dba98084838c7c78f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 068/107] fix: misspelled FourCC of the R8G8_B8G8 format

---
 formats/DDS.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 58cc6ba..59766d6 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -311,7 +311,7 @@ static constexpr DDS_PixelFormat DDSFormat_BC4S(CompileFourCC("BC4S"), 4);
 static constexpr DDS_PixelFormat DDSFormat_BC5U(CompileFourCC("BC5U"), 8);
 static constexpr DDS_PixelFormat DDSFormat_BC5S(CompileFourCC("BC5S"), 8);
 
-static constexpr DDS_PixelFormat DDSFormat_R8G8_B8G8(CompileFourCC("RBGB"), 32);
+static constexpr DDS_PixelFormat DDSFormat_R8G8_B8G8(CompileFourCC("RGBG"), 32);
 static constexpr DDS_PixelFormat DDSFormat_G8R8_G8B8(CompileFourCC("GRGB"), 32);
 static constexpr DDS_PixelFormat DDSFormat_UYVY(CompileFourCC("UYVY"), 32);
 static constexpr DDS_PixelFormat DDSFormat_YUY2(CompileFourCC("YUY2"), 32);
@@ -428,7 +428,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         break;
       case 112:
       case 114:
-      case CompileFourCC("RBGB"):
+      case CompileFourCC("RGBG"):
       case CompileFourCC("GRGB"):
       case CompileFourCC("YUY2"):
         bpp = 32;
@@ -577,7 +577,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     case CompileFourCC("BC5S"):
       dxgiFormat = DXGI_FORMAT_BC5_SNORM;
       break;
-    case CompileFourCC("RBGB"):
+    case CompileFourCC("RGBG"):
       dxgiFormat = DXGI_FORMAT_R8G8_B8G8_UNORM;
       break;
     case CompileFourCC("GRGB"):
-- 
2.43.0


From 28049fae16c8d96b71134fc98acb0181f50ce370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 069/107] fix: red and blue were exchanged between legacy and
 DXGI formats

---
 formats/DDS.hpp | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 59766d6..470dfd0 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -327,6 +327,9 @@ static constexpr DDS_PixelFormat DDSFormat_A2B10G10R10(
 static constexpr DDS_PixelFormat DDSFormat_A8R8G8B8(
     {DDS_PixelFormat::PFFlags_RGB, DDS_PixelFormat::PFFlags_AlphaPixels}, 32,
     0x00ff0000, 0x0000ff00, 0x000000ff, 0xff000000);
+static constexpr DDS_PixelFormat DDSFormat_A8B8G8R8(
+    {DDS_PixelFormat::PFFlags_RGB, DDS_PixelFormat::PFFlags_AlphaPixels}, 32,
+    0x000000ff, 0x0000ff00, 0x00ff0000, 0xff000000);
 static constexpr DDS_PixelFormat DDSFormat_A1R5G5B5(
     {DDS_PixelFormat::PFFlags_RGB, DDS_PixelFormat::PFFlags_AlphaPixels}, 16,
     0x00007c00, 0x000003e0, 0x0000001f, 0x00008000);
@@ -597,7 +600,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
 
       if (tformat == DDSFormat_A2B10G10R10)
         dxgiFormat = DXGI_FORMAT_R10G10B10A2_UNORM;
-      else if (tformat == DDSFormat_A8R8G8B8)
+      else if (tformat == DDSFormat_A8B8G8R8)
         dxgiFormat = DXGI_FORMAT_R8G8B8A8_UNORM;
       else if (tformat == DDSFormat_G16R16)
         dxgiFormat = DXGI_FORMAT_R16G16_UNORM;
@@ -613,23 +616,11 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         dxgiFormat = DXGI_FORMAT_R16_UNORM;
       else if (tformat == DDSFormat_L8)
         dxgiFormat = DXGI_FORMAT_R8_UNORM;
-      else if (tformat ==
-               DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                DDS_PixelFormat::PFFlags_AlphaPixels},
-                               32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                               0xff000000))
+      else if (tformat == DDSFormat_A8R8G8B8)
         dxgiFormat = DXGI_FORMAT_B8G8R8A8_UNORM;
-      else if (tformat ==
-               DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                DDS_PixelFormat::PFFlags_AlphaPixels},
-                               32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                               0x00000000))
+      else if (tformat == DDSFormat_X8R8G8B8)
         dxgiFormat = DXGI_FORMAT_B8G8R8X8_UNORM;
-      else if (tformat ==
-               DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                DDS_PixelFormat::PFFlags_AlphaPixels},
-                               16, 0x0000000f, 0x000000f0, 0x00000f00,
-                               0x0000f000))
+      else if (tformat == DDSFormat_A4R4G4B4)
         dxgiFormat = DXGI_FORMAT_B4G4R4A4_UNORM;
       else
         result = 1;
@@ -658,7 +649,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       operator=(DDSFormat_A2B10G10R10);
       break;
     case DXGI_FORMAT_R8G8B8A8_UNORM:
-      operator=(DDSFormat_A8R8G8B8);
+      operator=(DDSFormat_A8B8G8R8);
       break;
     case DXGI_FORMAT_R16G16_UNORM:
       operator=(DDSFormat_G16R16);
@@ -735,7 +726,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
 
       switch (dxgiFormat) {
       case DXGI_FORMAT_R8G8B8A8_UNORM_SRGB:
-        operator=(DDSFormat_A8R8G8B8);
+        operator=(DDSFormat_A8B8G8R8);
         break;
       case DXGI_FORMAT_R8G8_UNORM:
         operator=(DDSFormat_A8L8);
@@ -758,23 +749,14 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         break;
       case DXGI_FORMAT_B8G8R8A8_UNORM:
       case DXGI_FORMAT_B8G8R8A8_UNORM_SRGB:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                                  0xff000000));
+        operator=(DDSFormat_A8R8G8B8);
         break;
       case DXGI_FORMAT_B8G8R8X8_UNORM:
       case DXGI_FORMAT_B8G8R8X8_UNORM_SRGB:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                                  0x00000000));
+        operator=(DDSFormat_X8R8G8B8);
         break;
       case DXGI_FORMAT_B4G4R4A4_UNORM:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  16, 0x0000000f, 0x000000f0, 0x00000f00,
-                                  0x0000f000));
+        operator=(DDSFormat_A4R4G4B4);
         break;
       default:
         result = 1;
-- 
2.43.0


From a65d2a6925f78a6edde70b7258445ed52939be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 070/107] fix: SIMD block decoder interpolated bright colors as
 negative ones

---
 formats/BlockDecoderSimd.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/formats/BlockDecoderSimd.hpp b/formats/BlockDecoderSimd.hpp
index adf52c8..2f5c9a2 100644
--- a/formats/BlockDecoderSimd.hpp
+++ b/formats/BlockDecoderSimd.hpp
@@ -22,12 +22,13 @@
 static inline void DecodeRGB565Blocks(const char *data, IVector4A16 &color0,
                                       IVector4A16 &color1) {
   const uint32 rawdata = reinterpret_cast<const uint32 &>(*data);
-  const auto cl00 = IVector4A16(rawdata);
-  const auto cl0 = cl00 * IVector4A16(0x8000000, 0x200000, 0x10000, 0);
-  const auto cl1 = cl00 * IVector4A16(0x800, 0x20, 0x1, 0);
+  const auto cl00 = UIVector4A16(rawdata);
+  // unsigned, so the shifts below are logical
+  const auto cl0 = cl00 * UIVector4A16(0x8000000, 0x200000, 0x10000, 0);
+  const auto cl1 = cl00 * UIVector4A16(0x800, 0x20, 0x1, 0);
 
-  color0 = cl0 >> 24;
-  color1 = cl1 >> 24;
+  color0 = IVector4A16(cl0 >> 24);
+  color1 = IVector4A16(cl1 >> 24);
 }
 
 inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
-- 
2.43.0


From 1f511012b904b4c6122656305ac7ef3f3009647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 071/107] fix: opaque blocks decoded with alpha did not set the
 alpha

---
 formats/BlockDecoder.inl | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 147246a..9defeec 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -102,20 +102,18 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         *(obuffer + ((h + row) * width + w + 3) * pixeloffset)) = colors[d4];
     data++;
 
-    if (usealpha) {
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
-          d1 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
-          d2 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
-          d3 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
-          d4 == 3 ? 0 : 0xff;
-    }
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
+        usealpha && d1 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
+        usealpha && d2 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
+        usealpha && d3 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
+        usealpha && d4 == 3 ? 0 : 0xff;
   }
 }
 
-- 
2.43.0


From 39510ce6469ecdf1d6984216167e9fc6f03390fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 072/107] fix: Morton addresses of tall or small textures were
 outside of the texture

---
 formats/addr_ps3.hpp | 62 ++++++++++----------------------------------
 1 file changed, 14 insertions(+), 48 deletions(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index a997629..da11143 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -22,8 +22,9 @@
 struct MortonSettings {
   size_t width;
   size_t height;
-  size_t xmask[10]{};
-  size_t ymask[10]{};
+  // Masks of coordinate bits, index is their left shift
+  size_t xmask[16]{};
+  size_t ymask[16]{};
 
   MortonSettings(size_t width_, size_t height_)
       : width(width_), height(height_) {
@@ -31,9 +32,9 @@ struct MortonSettings {
     const size_t bitOffsetH = log2(height);
     const size_t minBits = bitOffsetW > bitOffsetH ? bitOffsetH : bitOffsetW;
 
-    for (size_t b = 4; b < minBits; b++) {
-      xmask[b - 4] = size_t(1) << b;
-      ymask[b - 4] = size_t(1) << b;
+    for (size_t b = 0; b < minBits; b++) {
+      xmask[b] = size_t(1) << b;
+      ymask[b + 1] = size_t(1) << b;
     }
 
     if (bitOffsetW != bitOffsetH) {
@@ -41,57 +42,22 @@ struct MortonSettings {
       const size_t maskH = height - 1;
       const size_t mask = maskH ^ maskW;
 
+      // The rest of the longer side is linear
       if (bitOffsetW > bitOffsetH) {
-        xmask[bitOffsetH - 4] = mask;
+        xmask[bitOffsetH] |= mask;
       } else {
-        ymask[bitOffsetW - 4] = mask;
+        ymask[bitOffsetW] |= mask;
       }
     }
   }
 };
 
-size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
-  const size_t x0 = x & 1;
-  const size_t x1 = (x & 2) << 1;
-  const size_t x2 = (x & 4) << 2;
-  const size_t x3 = (x & 8) << 3;
-  const size_t x4 = (x & settings.xmask[0]) << 4;
-  const size_t x5 = (x & settings.xmask[1]) << 5;
-  const size_t x6 = (x & settings.xmask[2]) << 6;
-  const size_t x7 = (x & settings.xmask[3]) << 7;
+inline size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
+  size_t retval = 0;
 
-  const size_t y0 = (y & 1) << 1;
-  const size_t y1 = (y & 2) << 2;
-  const size_t y2 = (y & 4) << 3;
-  const size_t y3 = (y & 8) << 4;
-  const size_t y4 = (y & settings.ymask[0]) << 5;
-  const size_t y5 = (y & settings.ymask[1]) << 6;
-  const size_t y6 = (y & settings.ymask[2]) << 7;
-  const size_t y7 = (y & settings.ymask[3]) << 8;
-
-  size_t retval = x0 | x1 | x2 | x3 | x4 | x5 | x6 | x7 | y0 | y1 | y2 | y3 |
-                  y4 | y5 | y6 | y7;
-
-  if (settings.xmask[4] || settings.ymask[4]) {
-    const size_t x8 = (x & settings.xmask[4]) << 8;
-    const size_t x9 = (x & settings.xmask[5]) << 9;
-    const size_t x10 = (x & settings.xmask[6]) << 10;
-
-    const size_t y8 = (y & settings.ymask[4]) << 9;
-    const size_t y9 = (y & settings.ymask[5]) << 10;
-    const size_t y10 = (y & settings.ymask[6]) << 11;
-    retval |= x8 | x9 | x10 | y8 | y9 | y10;
-
-    if (settings.xmask[7] || settings.ymask[7]) {
-      const size_t x11 = (x & settings.xmask[7]) << 11;
-      const size_t x12 = (x & settings.xmask[8]) << 12;
-      const size_t x13 = (x & settings.xmask[9]) << 13;
-
-      const size_t y11 = (y & settings.ymask[7]) << 12;
-      const size_t y12 = (y & settings.ymask[8]) << 13;
-      const size_t y13 = (y & settings.ymask[9]) << 14;
-      retval |= x11 | x12 | x13 | y11 | y12 | y13;
-    }
+  for (size_t b = 0; b < 16; b++) {
+    retval |= (x & settings.xmask[b]) << b;
+    retval |= (y & settings.ymask[b]) << b;
   }
 
   return retval;
-- 
2.43.0


From ee28b6620547887319ad3494636a086ff9238ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 073/107] fix: sockets and block devices were reported as
 directories

---
 datas/internal/stat_ix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/stat_ix.inl b/datas/internal/stat_ix.inl
index d762f3a..870a8be 100644
--- a/datas/internal/stat_ix.inl
+++ b/datas/internal/stat_ix.inl
@@ -20,9 +20,9 @@
 FileType_e FileType(const std::string &path) {
   struct stat s;
   if (!stat(path.data(), &s)) {
-    if (s.st_mode & S_IFDIR) {
+    if (S_ISDIR(s.st_mode)) {
       return FileType_e::Directory;
-    } else if (s.st_mode & S_IFREG) {
+    } else if (S_ISREG(s.st_mode)) {
       return FileType_e::File;
     } else {
       return FileType_e::Invalid;
-- 
2.43.0


From a97044c347d727cd915a0212cad95463695191d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 074/107] fix: scanning a quoted folder ending with a slash
 doubled the slash

---
 datas/directory_scanner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 5b41e83..c520f35 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -43,6 +43,7 @@ void DirectoryScanner::Scan(std::string dir) {
 
     if (lastWord == '"') {
       dir.pop_back();
+      lastWord = dir.empty() ? '/' : *std::prev(dir.end());
     }
 
     if (lastWord != '\\' && lastWord != '/') {
-- 
2.43.0


From b715307c997351aa4f1b93472da1d7e7037ebdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 075/107] fix: folders with names ending with a quote or
 backslash were not scanned

---
 datas/directory_scanner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index c520f35..7639615 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -73,7 +73,8 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile += miniFile;
 
     if (cFile->d_type == DT_DIR) {
-      Scan(subFile);
+      // the slash keeps quotes and backslashes part of the name
+      Scan(subFile + '/');
     } else if (IsFilteredFile(miniFile)) {
       files.push_back(subFile);
     }
-- 
2.43.0


From 07097583f01548322dc832135af76516a0364fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 076/107] fix: folders were listed as files on file systems
 that do not tell the kind

---
 datas/directory_scanner.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 7639615..222e538 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -20,6 +20,7 @@
 
 #if defined(__GNUC__) || defined(__GNUG__)
 #include <dirent.h>
+#include <sys/stat.h>
 #else
 #include <windows.h>
 #endif
@@ -72,7 +73,14 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile.pop_back();
     subFile += miniFile;
 
-    if (cFile->d_type == DT_DIR) {
+    bool isDirectory = cFile->d_type == DT_DIR;
+
+    if (cFile->d_type == DT_UNKNOWN) { // not provided by the file system
+      struct stat s;
+      isDirectory = !lstat(subFile.data(), &s) && S_ISDIR(s.st_mode);
+    }
+
+    if (isDirectory) {
       // the slash keeps quotes and backslashes part of the name
       Scan(subFile + '/');
     } else if (IsFilteredFile(miniFile)) {
-- 
2.43.0


From 02d83120044ef36d111b91d1d44d20d24f8b665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 077/107] fix: characters outside of the basic plane did not
 come back from 32 bit wide strings

---
 datas/unicode.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/unicode.hpp b/datas/unicode.hpp
index c7d6fac..d280155 100644
--- a/datas/unicode.hpp
+++ b/datas/unicode.hpp
@@ -68,6 +68,11 @@ template <typename _Ty> struct _utf8cvt<_Ty, 4> {
 
 template <typename _Ty> using utf8cvt = _utf8cvt<_Ty, sizeof(_Ty)>;
 
+// UTF-16 or UTF-32, depending on the size of wchar_t
+using wide_facet = std::conditional<sizeof(wchar_t) == 2,
+                                    std::codecvt_utf8_utf16<wchar_t>,
+                                    std::codecvt_utf8<wchar_t>>::type;
+
 } // namespace _es
 
 namespace es {
@@ -80,12 +85,12 @@ template <class C> std::string ToUTF8(const std::basic_string<C> &input) {
 }
 
 inline std::wstring ToUTF1632(const char *input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::wide_facet> converter;
   return converter.from_bytes(input);
 }
 
 inline std::wstring ToUTF1632(const std::string &input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::wide_facet> converter;
   return converter.from_bytes(input);
 }
 }; // namespace es
-- 
2.43.0


From 6d5850dc9f5e6d21b7f8e07adf4e5b1d52db50f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 078/107] fix: help of settings without descriptions read a
 null pointer

---
 datas/settings_manager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 04442ee..d975363 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -80,7 +80,7 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
 
     for (size_t i = 0; i < ref->nTypes; i++) {
       es::string_view elName = ref->typeNames[i];
-      auto elDesc = ref->typeDescs[i];
+      auto elDesc = ref->typeDescs ? ref->typeDescs[i] : _ReflDesc{};
       fillIndent() << elName << std::endl;
 
       if (!elDesc.part1.empty()) {
-- 
2.43.0


From 3cc250b0f1630c52e31be9bab9d21c528cb189c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 079/107] fix: a second log of settings was not written and
 stopped the first one

---
 datas/settings_manager.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index d975363..5bd2eff 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -45,6 +45,12 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
               &timeStruct);
     logName.append(std::to_string(dateBuffer));
     logName.append(".txt");
+
+    if (GetLogger().is_open()) {
+      GetLogger().close();
+    }
+
+    GetLogger().clear();
     GetLogger().open(ToTSTRING(logName), std::ios::out);
     printer.AddPrinterFunction(SettingsManager::printf, false);
 
-- 
2.43.0


From 032dfefb8068713730e3146d3165d40e85cc257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 080/107] fix: lists of 87 and 88 items were miscounted by the
 member loops

---
 datas/macroLoop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/macroLoop.hpp b/datas/macroLoop.hpp
index 22e6b1f..23a5b99 100644
--- a/datas/macroLoop.hpp
+++ b/datas/macroLoop.hpp
@@ -20,7 +20,7 @@
 #pragma once
 #define VA_NARGS_IMPL(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14,_15,_16,_17,_18,_19,_20,_21,_22,_23,_24,_25,_26,_27,_28,_29,_30,_31,_32,_33,_34,_35,_36,_37,_38,_39,_40,_41,_42,_43,_44,_45,_46,_47,_48,_49,_50,_51,_52,_53,_54,_55,_56,_57,_58,_59,_60,_61,_62,_63,_64,_65,_66,_67,_68,_69,_70,_71,_72,_73,_74,_75,_76,_77,_78,_79,_80,_81,_82,_83,_84,_85,_86,_87,_88,_89, N, ...) N
 #define VA_NARGS_EVAL(x) x
-#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,87,88,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
+#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,88,87,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
 
 #define _LOOPER_CAT1(c1,c2) c1##c2
 #define _LOOPER_CAT2(c1,c2) _LOOPER_CAT1(c1, c2)
-- 
2.43.0


From e661f61444dfa2e10c06acdb4e5ee9d28a183d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 081/107] fix: characters above 0x7f spoiled the rest of a
 compiled four character code

---
 datas/supercore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index 326b52a..2c808d0 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -38,7 +38,7 @@ ES_STATIC_ASSERT(atohLUT[uint8('F')] == 15);
 template <size_t n> constexpr uint32 CompileFourCC(const char (&input)[n]) {
   uint32 retVal = 0;
   for (size_t i = 0; i < sizeof(retVal); i++) {
-    const uint32 tmp = input[i];
+    const uint32 tmp = static_cast<uint8>(input[i]);
     retVal |= tmp << (8 * i);
   }
 
-- 
2.43.0


From 7b839c52473d7e679b9a2acf5214768d32eea0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 082/107] fix: error message of an eight byte magic read behind
 it

---
 datas/except.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datas/except.hpp b/datas/except.hpp
index f2d5ce6..1003085 100644
--- a/datas/except.hpp
+++ b/datas/except.hpp
@@ -18,6 +18,8 @@
 
 #pragma once
 #include "string_view.hpp"
+#include <algorithm>
+#include <cctype>
 #include <cinttypes>
 #include <cstring>
 #include <stdexcept>
@@ -46,12 +48,12 @@ class InvalidHeaderError : public std::runtime_error {
 public:
   static std::string DecompileFourCC(size_t magic, size_t size) {
     const char *rMagic = reinterpret_cast<const char *>(&magic);
-    const size_t capSize =
-        std::min(size, es::string_view::traits_type::length(rMagic));
+    const size_t maxSize = std::min(size, sizeof(magic));
+    const size_t capSize = std::find(rMagic, rMagic + maxSize, 0) - rMagic;
     bool isAlNum = true;
 
     for (size_t c = 0; c < capSize; c++) {
-      if (!isalnum(rMagic[c])) {
+      if (!isalnum(static_cast<unsigned char>(rMagic[c]))) {
         isAlNum = false;
         break;
       }
-- 
2.43.0


From 0f51e3da10c707c84f78a6f539ba723c40ee315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 083/107] fix: next chunk of a wave file was looked for within
 the present one

---
 formats/WAVE.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/WAVE.hpp b/formats/WAVE.hpp
index 06e1f64..46bc3c7 100644
--- a/formats/WAVE.hpp
+++ b/formats/WAVE.hpp
@@ -26,7 +26,8 @@ struct WAVEGenericHeader {
 
   WAVEGenericHeader *Next() {
     return reinterpret_cast<WAVEGenericHeader *>(
-        reinterpret_cast<char *>(this) + chunkSize);
+        reinterpret_cast<char *>(this) + sizeof(WAVEGenericHeader) + chunkSize +
+        (chunkSize & 1));
   }
 };
 
-- 
2.43.0


From 0c754a31f249d7170e579a785d86cdac8ef54428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 084/107] fix: test checks of compound expressions negated or
 compared only a part of them

---
 datas/unit_testing.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/datas/unit_testing.hpp b/datas/unit_testing.hpp
index 708f678..3f4975f 100644
--- a/datas/unit_testing.hpp
+++ b/datas/unit_testing.hpp
@@ -86,40 +86,40 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_CHECK(val)                                                        \
-  if (!val) {                                                                  \
+  if (!(val)) {                                                                \
     _CHECK_FAILED_TMP(#val);                                                   \
     return 1;                                                                  \
   }
 
 #define TEST_EQUAL(val1, val2)                                                 \
-  if (val1 != val2) {                                                          \
+  if ((val1) != (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " != ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT(val1, val2)                                                    \
-  if (val1 <= val2) {                                                          \
+  if ((val1) <= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " <= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_LT(val1, val2)                                                    \
-  if (val1 >= val2) {                                                          \
+  if ((val1) >= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " >= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT_EQ(val1, val2)                                                 \
-  if (val1 < val2) {                                                           \
+  if ((val1) < (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " < ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
 
 #define TEST_LE_EQ(val1, val2)                                                 \
-  if (val1 > val2) {                                                           \
+  if ((val1) > (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " > ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
@@ -131,7 +131,7 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_NOT_EQUAL(val1, val2)                                             \
-  if (val1 == val2) {                                                          \
+  if ((val1) == (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " == ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
-- 
2.43.0


From 1d0f944c2ce9a456a757e6a5dbcacdb0deaad4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:23 +0000
Subject: [PATCH 085/107] fix: failed test cases with opposite results were
 reported as passed

---
 datas/unit_testing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/unit_testing.hpp b/datas/unit_testing.hpp
index 3f4975f..5fb9ee6 100644
--- a/datas/unit_testing.hpp
+++ b/datas/unit_testing.hpp
@@ -140,7 +140,7 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
 #define TEST_FUNC(funcName, ...)                                               \
   {                                                                            \
     int _tstValLoc = funcName(__VA_ARGS__);                                    \
-    _tstVal += _tstValLoc;                                                     \
+    _tstVal += _tstValLoc != 0;                                                \
     if (_tstValLoc) {                                                          \
       printerror("Method " #funcName " failed!");                              \
     }                                                                          \
-- 
2.43.0


From 31e92d784c494dc82a9644a20c9882ee89906aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 086/107] fix: reading from a failed stream used undefined
 values and did not have to end

---
 datas/base_128.hpp      |  4 ++--
 datas/binreader_ref.hpp | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index bb9bbfc..6042241 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -30,7 +30,7 @@ struct bint128 {
   int64 Read(BinReaderRef rd) {
     value = 0;
     for (size_t id = 0; id < 9; id++) {
-      uint8 cNum;
+      uint8 cNum = 0;
       rd.Read(cNum);
 
       if (id < 8) {
@@ -97,7 +97,7 @@ struct buint128 {
   uint64 Read(BinReaderRef rd) {
     value = 0;
     for (size_t id = 0; id < 9; id++) {
-      uint8 cNum;
+      uint8 cNum = 0;
       rd.Read(cNum);
 
       if (id == 8) {
diff --git a/datas/binreader_ref.hpp b/datas/binreader_ref.hpp
index c8c0803..1612e45 100644
--- a/datas/binreader_ref.hpp
+++ b/datas/binreader_ref.hpp
@@ -54,7 +54,7 @@ public:
   // input -> must have resize(), operator[], value_type, begin(), end()
   template <class _countType = uint32, class _containerClass>
   void ReadContainer(_containerClass &input) const {
-    _countType numElements;
+    _countType numElements{};
     Read(numElements);
     ReadContainer(input, numElements);
   }
@@ -86,7 +86,7 @@ public:
   // func -> lambda with (BinReaderRef, <element type>), no return
   template <class _countType = uint32, class _containerClass, class _func>
   void ReadContainerLambda(_containerClass &input, _func func) const {
-    _countType numElements;
+    _countType numElements{};
     Read(numElements);
     ReadContainerLambda(input, numElements, func);
   }
@@ -94,10 +94,15 @@ public:
   // Will read buffer until 0
   template <class _containerClass>
   void ReadString(_containerClass &input) const {
-    typename _containerClass::value_type tmp;
+    while (true) {
+      typename _containerClass::value_type tmp{};
+      Read(tmp);
+
+      if (tmp == 0 || this->IsEOF())
+        break;
 
-    while ((Read(tmp), tmp) != 0 && !this->IsEOF())
       input.push_back(tmp);
+    }
   }
 
   template <typename T, size_t _size> void Read(T (&value)[_size]) const {
-- 
2.43.0


From e1b90202494bfb05ff4d148a0b57383fa676ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 087/107] fix: reversed Blowfish key bytes above 127 were sign
 extended over the rest of the key

---
 datas/encrypt/blowfish.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index d47582f..3c7bf6d 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -554,20 +554,21 @@ void BlowfishEncoder2::DecodeBlock(uint64 &block) const {
   val1 = _val0.d;
 }
 
-void BlowfishEncoder2::SetKey(const char *inKey, int inSize) {
+void BlowfishEncoder2::SetKey(const char *keyData, int inSize) {
   if (mode)
     CreateVector();
 
   uint64 lastblock = 0;
 
   memcpy(sboxes, BF_SBOXES, BF_NUMSBOXES * 4);
+  auto inKey = reinterpret_cast<const uint8 *>(keyData);
 
   for (int i = 0; i < BF_NUMPBOXES; i++) {
     const uint32 curKey = i * 4;
     const uint32 keyEntry = *(inKey + ((curKey) % inSize)) |
                             (*(inKey + ((curKey + 1) % inSize)) << 8) |
                             (*(inKey + ((curKey + 2) % inSize)) << 16) |
-                            (*(inKey + ((curKey + 3) % inSize)) << 24);
+                            (static_cast<uint32>(*(inKey + ((curKey + 3) % inSize))) << 24);
 
     pboxes[i] = BF_PBOXES[i] ^ keyEntry;
   }
-- 
2.43.0


From 5e898bc8a496c9688b09fb1e610508f9486a8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 088/107] fix: an empty reversed Blowfish key divided by zero

---
 datas/encrypt/blowfish.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index 3c7bf6d..b02881a 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -555,6 +555,9 @@ void BlowfishEncoder2::DecodeBlock(uint64 &block) const {
 }
 
 void BlowfishEncoder2::SetKey(const char *keyData, int inSize) {
+  if (inSize <= 0)
+    throw std::invalid_argument("Blowfish key cannot be empty.");
+
   if (mode)
     CreateVector();
 
-- 
2.43.0


From ca095ee6e57c10bde30ff0697af2b0eb867beba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 089/107] fix: Morton settings of textures over 32768 pixels
 wrote behind their masks

---
 formats/addr_ps3.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index da11143..1f0dd8f 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -23,8 +23,8 @@ struct MortonSettings {
   size_t width;
   size_t height;
   // Masks of coordinate bits, index is their left shift
-  size_t xmask[16]{};
-  size_t ymask[16]{};
+  size_t xmask[32]{};
+  size_t ymask[32]{};
 
   MortonSettings(size_t width_, size_t height_)
       : width(width_), height(height_) {
@@ -55,7 +55,7 @@ struct MortonSettings {
 inline size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
   size_t retval = 0;
 
-  for (size_t b = 0; b < 16; b++) {
+  for (size_t b = 0; b < 32; b++) {
     retval |= (x & settings.xmask[b]) << b;
     retval |= (y & settings.ymask[b]) << b;
   }
-- 
2.43.0


From 3cc3dc410acb6d729fe3cbacb204b35fdeee29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 090/107] fix: reflected members too big or too far for their
 descriptor led to other memory

---
 datas/internal/reflector_type.hpp | 9 +++++++++
 datas/refl_array.hpp              | 3 +++
 datas/reflector_fwd.hpp           | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/datas/internal/reflector_type.hpp b/datas/internal/reflector_type.hpp
index 64f4ef8..17108ec 100644
--- a/datas/internal/reflector_type.hpp
+++ b/datas/internal/reflector_type.hpp
@@ -21,6 +21,7 @@
 #include "../reflector_fwd.hpp"
 #include "../supercore.hpp"
 #include "reflector_class_reg.hpp"
+#include <stdexcept>
 
 struct reflType {
   REFType type;          // type of main element
@@ -110,6 +111,10 @@ template <class C, size_t _Size> struct _getType<C[_Size]> : reflTypeDefault_ {
   static constexpr uint16 NUMITEMS = _Size;
 };
 
+template <class C, size_t _Size> struct _fitsReflType<C[_Size]> {
+  static constexpr bool value = sizeof(C) <= 0xff && _Size <= 0xffff;
+};
+
 union _DecomposedVectorHash {
   JenHash hash;
   struct {
@@ -127,6 +132,10 @@ reflType BuildReflType(JenHash classHash, uint8 index, size_t offset) {
                 "Undefined type to reflect. Did you forget void "
                 "ReflectorTag(); tag method for subclass member?");
 
+  if (!_fitsReflType<unref_type>::value || offset > 0xffff) {
+    throw std::length_error("Reflected member is too big or too far.");
+  }
+
   return reflType{type_class::TYPE,
                   type_class::SUBTYPE,
                   type_class::SUBSIZE,
diff --git a/datas/refl_array.hpp b/datas/refl_array.hpp
index 19977c6..21c7274 100644
--- a/datas/refl_array.hpp
+++ b/datas/refl_array.hpp
@@ -27,3 +27,6 @@ struct _getType<std::array<C, _Size>> : reflTypeDefault_ {
   static constexpr REFType SUBTYPE = _getType<C>::TYPE;
   static constexpr uint16 NUMITEMS = _Size;
 };
+
+template <class C, size_t _Size>
+struct _fitsReflType<std::array<C, _Size>> : _fitsReflType<C[_Size]> {};
diff --git a/datas/reflector_fwd.hpp b/datas/reflector_fwd.hpp
index b59add6..14aab5d 100644
--- a/datas/reflector_fwd.hpp
+++ b/datas/reflector_fwd.hpp
@@ -49,4 +49,9 @@ struct reflTypeDefault_ {
 };
 
 template <typename _Ty> struct _getType;
+
+// Whether item size and count of a member can be stored in its reflType
+template <typename _Ty> struct _fitsReflType {
+  static constexpr bool value = true;
+};
 template <class C> struct ReflectorType;
-- 
2.43.0


From d965e46df658ed1a654b3b5d0e92a6fa9c7b0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:43 +0000
Subject: [PATCH 091/107] fix: loading a reflection database into a used one,
 or copying a loaded one, left dangling tables

---
 datas/reflector_io.cpp | 13 ++++++++++---
 datas/reflector_io.hpp |  5 ++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index eae7791..c47f81f 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -93,6 +93,11 @@ int ReflectorIO::Load(BinReaderRef rd) {
   if (hdr.version > hdr.VERSION)
     return 2;
 
+  buffers.emplace_back(std::make_shared<std::string>());
+  std::string &data = *buffers.back();
+  const size_t firstClass = classes.size();
+  const size_t firstEnum = enums.size();
+
   rd.ReadContainer(data, hdr.bufferSize);
 
   const reflectorStatic *classesStart =
@@ -103,9 +108,9 @@ int ReflectorIO::Load(BinReaderRef rd) {
 
   const esIntPtr bufferStart = reinterpret_cast<esIntPtr>(classesStart);
 
-  for (auto i : classes) {
+  for (size_t i = firstClass; i < classes.size(); i++) {
     reflectorStatic_io *itemIO = reinterpret_cast<reflectorStatic_io *>(
-        const_cast<reflectorStatic *>(i));
+        const_cast<reflectorStatic *>(classes[i]));
     esIntPtr *itemPtrsBegin = reinterpret_cast<esIntPtr *>(itemIO->_x64Padding);
 
     itemPtrsBegin[0] = bufferStart + itemIO->typesPtr;
@@ -197,7 +202,9 @@ int ReflectorIO::Load(BinReaderRef rd) {
     enumNamesPtrs[s] = bufferStart + enumNamesOffsets[s];
   }
 
-  for (auto &e : enums) {
+  for (size_t i = firstEnum; i < enums.size(); i++) {
+    ReflectedEnum &e = enums[i];
+
     for (auto &n : e) {
       n = {*enumNamesIter};
       enumNamesIter++;
diff --git a/datas/reflector_io.hpp b/datas/reflector_io.hpp
index d7dacd8..92febde 100644
--- a/datas/reflector_io.hpp
+++ b/datas/reflector_io.hpp
@@ -18,11 +18,14 @@
 #pragma once
 #include "bincore_fwd.hpp"
 #include "reflector.hpp"
+#include <memory>
+#include <vector>
 
 class ReflectorIO {
   typedef std::vector<const reflectorStatic *> classes_type;
   typedef std::vector<ReflectedEnum> enums_type;
-  std::string data;
+  // Loaded buffers, classes and enums point into them, so copies share them
+  std::vector<std::shared_ptr<std::string>> buffers;
   classes_type classes;
   enums_type enums;
 
-- 
2.43.0


From dfc81c38d4f6cf6e16a52ccdda8001d497aff3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:25 +0000
Subject: [PATCH 092/107] fix: opening another file with a used reader or
 writer failed

---
 datas/internal/bincore_file.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datas/internal/bincore_file.hpp b/datas/internal/bincore_file.hpp
index 3aaa921..2265bae 100644
--- a/datas/internal/bincore_file.hpp
+++ b/datas/internal/bincore_file.hpp
@@ -29,6 +29,9 @@ protected:
   }
 
   bool Open_(const char *_fileName) {
+    if (FileStream.is_open())
+      FileStream.close();
+
 #if defined(UNICODE) && defined(_MSC_VER)
     FileStream.open(es::ToUTF1632(_fileName), MODE);
 #else
@@ -39,6 +42,9 @@ protected:
   }
 
   bool Open_(const std::string &_fileName) {
+    if (FileStream.is_open())
+      FileStream.close();
+
 #if defined(UNICODE) && defined(_MSC_VER)
     FileStream.open(es::ToUTF1632(_fileName), MODE);
 #else
-- 
2.43.0


From e5498f5ef0124f942e0814402352a859a486f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 093/107] fix: empty or cut reflection databases were taken

---
 datas/reflector_io.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index c47f81f..7472041 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -85,9 +85,10 @@ struct ReflectorIOHeader {
 int ReflectorIO::Load(BinReaderRef rd) {
   ReflectorIOHeader hdr;
 
+  hdr.id = 0; // stays when there is nothing to read
   rd.Read(hdr);
 
-  if (hdr.id != hdr.ID)
+  if (hdr.id != hdr.ID || rd.IsEOF())
     return 1;
 
   if (hdr.version > hdr.VERSION)
@@ -100,6 +101,11 @@ int ReflectorIO::Load(BinReaderRef rd) {
 
   rd.ReadContainer(data, hdr.bufferSize);
 
+  if (rd.IsEOF()) {
+    buffers.pop_back();
+    return 3;
+  }
+
   const reflectorStatic *classesStart =
       reinterpret_cast<const reflectorStatic *>(data.data());
 
-- 
2.43.0


From 066c6943147fb945df38ad4ba7ac113b0922c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 094/107] fix: folders stayed open when scanning one of them
 failed

---
 datas/directory_scanner.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 222e538..e778982 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -26,6 +26,7 @@
 #endif
 
 #include <cstring>
+#include <memory>
 
 bool DirectoryScanner::IsFilteredFile(const std::string &fileName) {
   if (!filters.size())
@@ -55,7 +56,11 @@ void DirectoryScanner::Scan(std::string dir) {
 #if defined(__GNUC__) || defined(__GNUG__)
   dir.push_back('.');
   
-  DIR *cDir = opendir(dir.data());
+  struct Closer {
+    void operator()(DIR *d) const { closedir(d); }
+  };
+
+  std::unique_ptr<DIR, Closer> cDir(opendir(dir.data()));
 
   if (!cDir) {
     return;
@@ -63,7 +68,7 @@ void DirectoryScanner::Scan(std::string dir) {
 
   dirent *cFile = nullptr;
 
-  while ((cFile = readdir(cDir)) != nullptr) {
+  while ((cFile = readdir(cDir.get())) != nullptr) {
     if (!strcmp(cFile->d_name, ".") || !strcmp(cFile->d_name, "..")) {
       continue;
     }
@@ -87,8 +92,6 @@ void DirectoryScanner::Scan(std::string dir) {
       files.push_back(subFile);
     }
   }
-
-  closedir(cDir);
 #else
   dir.push_back('*');
   const auto wdir = ToTSTRING(dir);
-- 
2.43.0


From 04b4d6d7f09258e00ffe1f0bebac3eac48217230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 095/107] fix: a throwing printer function left its message and
 its kind behind

---
 datas/master_printer.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index ab42071..c8205ac 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -18,6 +18,7 @@
 #include "flags.hpp"
 #include "master_printer.hpp"
 #include <mutex>
+#include <string>
 #include <thread>
 #include <vector>
 
@@ -66,10 +67,12 @@ void MasterPrinterThread::FlushAll() {
 
   _masterstream.seekp(0);
 
-  char *tempOut = static_cast<char *>(malloc(buffsize));
+  // Printer functions can throw
+  const MPType cType = this->cType;
+  this->cType = MPType::MSG;
+  std::string tempOut(buffsize, 0);
 
-  _masterstream.read(tempOut, buffsize - 1);
-  tempOut[buffsize - 1] = 0;
+  _masterstream.read(&tempOut[0], buffsize - 1);
 
   if (buffsize > static_cast<size_t>(maximumStreamSize))
     _masterstream.str("");
@@ -103,14 +106,11 @@ void MasterPrinterThread::FlushAll() {
       fc.func("ERROR: ");
     }
 
-    fc.func(tempOut);
+    fc.func(tempOut.data());
 
     if (fc.useColor && cType != MPType::MSG)
       RestoreConsoleTextColor();
   }
-
-  cType = MPType::MSG;
-  free(tempOut);
 }
 
 void MasterPrinterThread::operator>>(int endWay) {
-- 
2.43.0


From 1a0e813b0e2c4fbd4ed249a93e5184616ccd04ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:16 +0000
Subject: [PATCH 096/107] fix: python lists took items out of range

---
 uni/python/pylist.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index e757a5a..f62df55 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -90,6 +90,16 @@ template <class Info> struct List {
 
   static PyObject *Subscript(List *self, PyObject *index) {
     const auto id = PyInt_AsSsize_t(index);
+
+    if (id == -1 && PyErr_Occurred()) {
+      return nullptr;
+    }
+
+    if (id < 0 || static_cast<size_t>(id) >= Len(self)) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     return self->SubscriptRaw(id);
   }
 
-- 
2.43.0


From cebcfbd1500faca90a5e55b05599d23c5708a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:17 +0000
Subject: [PATCH 097/107] fix: walking a python list released the list

---
 uni/python/pylist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index f62df55..c99f4db 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -112,6 +112,7 @@ template <class Info> struct List {
 
   static PyObject *Iter(List *self) {
     self->iterPos = 0;
+    Py_INCREF(self);
     return reinterpret_cast<PyObject *>(self);
   }
 
-- 
2.43.0


From 22ede77c74dbf8aa3f966a13df9ca2e9c4b45909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:19 +0000
Subject: [PATCH 098/107] fix: python objects were never freed

---
 uni/python/pylist.hpp     |  5 ++++-
 uni/python/pymotion.inl   |  8 ++++++--
 uni/python/pyskeleton.inl | 10 ++++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index c99f4db..333b07f 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -84,7 +84,10 @@ template <class Info> struct List {
     return &typeObject;
   }
 
-  static void Dealloc(List *self) { auto t0 = std::move(self->cList); }
+  static void Dealloc(List *self) {
+    { auto t0 = std::move(self->cList); }
+    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+  }
 
   static size_t Len(List *self) { return self->cList->Size(); }
 
diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 02dc731..4e1edaa 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -150,7 +150,8 @@ static PyTypeObject motionTrackType = {
 PyTypeObject *MotionTrack::GetType() { return &motionTrackType; }
 
 void MotionTrack::Dealloc(MotionTrack *self) {
-  auto t0 = std::move(self->item);
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
 }
 
 PyObject *MotionTrack::TrackType(MotionTrack *self) {
@@ -280,7 +281,10 @@ PyTypeObject *Motion::GetType() { return &motionType; }
 
 PyTypeObject *Motion::GetListType() { return MotionList::GetType(); }
 
-void Motion::Dealloc(Motion *self) { auto t0 = std::move(self->item); }
+void Motion::Dealloc(Motion *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+}
 
 PyObject *Motion::MotionType(Motion *self) {
   return PyLong_FromSize_t(self->item->MotionType());
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 8d09514..e5bfa32 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -114,7 +114,10 @@ static PyTypeObject boneType = {
 
 PyTypeObject *Bone::GetType() { return &boneType; }
 
-void Bone::Dealloc(Bone *self) { auto t0 = std::move(self->item); }
+void Bone::Dealloc(Bone *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+}
 
 PyObject *Bone::GetTMType(Bone *self) {
   return PyLong_FromLong(self->item->TMType());
@@ -218,7 +221,10 @@ static PyTypeObject skeletonType = {
 
 PyTypeObject *Skeleton::GetType() { return &skeletonType; }
 
-void Skeleton::Dealloc(Skeleton *self) { auto t0 = std::move(self->item); }
+void Skeleton::Dealloc(Skeleton *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+}
 
 PyObject *Skeleton::Name(Skeleton *self) {
   auto skName = self->item->Name();
-- 
2.43.0


From 5bf8a8735b35b46a056a5a2cf1ff6481efff5cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:06 +0000
Subject: [PATCH 099/107] fix: python bindings gave None away without counting
 it

---
 uni/python/pymotion.inl   | 2 ++
 uni/python/pyskeleton.inl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 4e1edaa..eeda8fd 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -216,6 +216,8 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
     break;
   }
   default:
+    Py_DECREF(retList);
+    Py_INCREF(Py_None);
     return Py_None;
   }
 
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index e5bfa32..5019a70 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -136,6 +136,7 @@ PyObject *Bone::GetTM(Bone *self) {
     return Py_BuildValue(rts);
   }
   default:
+    Py_INCREF(Py_None);
     return Py_None;
   }
 }
@@ -157,6 +158,7 @@ PyObject *Bone::GetParent(Bone *self) {
     rtVal->item = {bne, false};
     return reinterpret_cast<PyObject *>(rtVal);
   } else {
+    Py_INCREF(Py_None);
     return Py_None;
   }
 }
-- 
2.43.0


From c39cdec17daf20f6dbbfc01e96a657441c6e2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 100/107] fix: python motions took framerates and times that
 are no numbers

---
 uni/python/pymotion.inl | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index eeda8fd..fd46e5a 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -174,6 +174,10 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
 
   for (auto &t : times) {
     t = static_cast<float>(PyFloat_AsDouble(*cObj++));
+
+    if (PyErr_Occurred()) {
+      return nullptr;
+    }
   }
 
   auto retList = PyList_New(times.size());
@@ -310,7 +314,18 @@ PyObject *Motion::FrameRate(Motion *self) {
 }
 
 int Motion::SetFrameRate(Motion *self, PyObject *var) {
-  self->sitem->FrameRate(PyLong_AsLong(var));
+  if (!var) {
+    PyErr_SetString(PyExc_TypeError, "framerate cannot be deleted");
+    return -1;
+  }
+
+  const auto fps = PyLong_AsLong(var);
+
+  if (fps == -1 && PyErr_Occurred()) {
+    return -1;
+  }
+
+  self->sitem->FrameRate(fps);
   return 0;
 }
 
-- 
2.43.0


From d7681f0cb60956182867d4dcba8601727ef77360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:09 +0000
Subject: [PATCH 101/107] fix: python enumerations took unknown names and items
 out of range

---
 datas/python/reflected_enum.hpp | 9 ++++++++-
 uni/python/pyenum.hpp           | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/datas/python/reflected_enum.hpp b/datas/python/reflected_enum.hpp
index 8d87cda..ad57585 100644
--- a/datas/python/reflected_enum.hpp
+++ b/datas/python/reflected_enum.hpp
@@ -93,6 +93,11 @@ template <class E, const char *const doc = nullptr> struct ReflectedEnumPy {
   }
 
   static PyObject *SubscriptRaw(size_t index) {
+    if (index >= GetEnum().size()) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     auto eName = GetEnum()[index];
     return PyString_FromStringAndSize(eName.data(), eName.size());
   }
@@ -101,8 +106,10 @@ template <class E, const char *const doc = nullptr> struct ReflectedEnumPy {
     const auto foundEnum =
         std::find(GetEnum().begin(), GetEnum().end(), attrName);
 
-    if (es::IsEnd(GetEnum(), foundEnum))
+    if (es::IsEnd(GetEnum(), foundEnum)) {
+      PyErr_SetString(PyExc_AttributeError, attrName);
       return nullptr;
+    }
 
     const size_t fndID = std::distance(GetEnum().begin(), foundEnum);
 
diff --git a/uni/python/pyenum.hpp b/uni/python/pyenum.hpp
index 6debf8f..f6faf64 100644
--- a/uni/python/pyenum.hpp
+++ b/uni/python/pyenum.hpp
@@ -101,6 +101,7 @@ template <class Info> struct Enum {
                                         });
 
     if (foundEnum == Info::end()) {
+      PyErr_SetString(PyExc_AttributeError, attrName);
       return nullptr;
     }
 
-- 
2.43.0


From f384bf5e0ec9c5ae3ace6dca854f62dffa1a291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:18 +0000
Subject: [PATCH 102/107] fix: python times were read from a list that changed
 meanwhile

---
 uni/python/pymotion.inl | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index fd46e5a..b0d214f 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -170,10 +170,16 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
   }
 
   std::vector<float> times(PyList_Size((PyObject *)pTimes));
-  auto cObj = pTimes->ob_item;
 
-  for (auto &t : times) {
-    t = static_cast<float>(PyFloat_AsDouble(*cObj++));
+  for (size_t i = 0; i < times.size(); i++) {
+    // Conversion can run any code, list might get shorter
+    auto cObj = PyList_GetItem((PyObject *)pTimes, i);
+
+    if (!cObj) {
+      return nullptr;
+    }
+
+    times[i] = static_cast<float>(PyFloat_AsDouble(cObj));
 
     if (PyErr_Occurred()) {
       return nullptr;
-- 
2.43.0


From da4529e8a3e5d13b8b8b9aa85cd1c023e004be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:20 +0000
Subject: [PATCH 103/107] fix: errors of generic objects left python bindings
 as exceptions

---
 uni/python/pymotion.inl   | 84 ++++++++++++++++++++++-----------------
 uni/python/pyskeleton.inl |  5 ++-
 2 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index b0d214f..e0b81d2 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -189,46 +189,52 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
   auto retList = PyList_New(times.size());
   size_t curItem = 0;
 
-  switch (self->item->TrackType()) {
-  case uni::MotionTrack::Position:
-  case uni::MotionTrack::Rotation:
-  case uni::MotionTrack::Scale: {
-    Vector4A16 rtVal;
-    for (auto &t : times) {
-      self->item->GetValue(rtVal, t);
-      PyList_SetItem(retList, curItem++, Py_BuildValue(rtVal));
+  try {
+    switch (self->item->TrackType()) {
+    case uni::MotionTrack::Position:
+    case uni::MotionTrack::Rotation:
+    case uni::MotionTrack::Scale: {
+      Vector4A16 rtVal;
+      for (auto &t : times) {
+        self->item->GetValue(rtVal, t);
+        PyList_SetItem(retList, curItem++, Py_BuildValue(rtVal));
+      }
+      break;
     }
-    break;
-  }
-  case uni::MotionTrack::SingleFloat: {
-    float rtVal;
-    for (auto &t : times) {
-      self->item->GetValue(rtVal, t);
-      auto cVal = PyFloat_FromDouble(rtVal);
-      PyList_SetItem(retList, curItem++, cVal);
+    case uni::MotionTrack::SingleFloat: {
+      float rtVal;
+      for (auto &t : times) {
+        self->item->GetValue(rtVal, t);
+        auto cVal = PyFloat_FromDouble(rtVal);
+        PyList_SetItem(retList, curItem++, cVal);
+      }
+      break;
     }
-    break;
-  }
-  case uni::MotionTrack::PositionRotationScale: {
-    uni::RTSValue rts;
-    for (auto &t : times) {
-      self->item->GetValue(rts, t);
-      PyList_SetItem(retList, curItem++, Py_BuildValue(rts));
+    case uni::MotionTrack::PositionRotationScale: {
+      uni::RTSValue rts;
+      for (auto &t : times) {
+        self->item->GetValue(rts, t);
+        PyList_SetItem(retList, curItem++, Py_BuildValue(rts));
+      }
+      break;
     }
-    break;
-  }
-  case uni::MotionTrack::Matrix: {
-    esMatrix44 mtx;
-    for (auto &t : times) {
-      self->item->GetValue(mtx, t);
-      PyList_SetItem(retList, curItem++, Py_BuildValue(mtx));
+    case uni::MotionTrack::Matrix: {
+      esMatrix44 mtx;
+      for (auto &t : times) {
+        self->item->GetValue(mtx, t);
+        PyList_SetItem(retList, curItem++, Py_BuildValue(mtx));
+      }
+      break;
     }
-    break;
-  }
-  default:
+    default:
+      Py_DECREF(retList);
+      Py_INCREF(Py_None);
+      return Py_None;
+    }
+  } catch (const std::exception &e) {
     Py_DECREF(retList);
-    Py_INCREF(Py_None);
-    return Py_None;
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return nullptr;
   }
 
   return retList;
@@ -331,7 +337,13 @@ int Motion::SetFrameRate(Motion *self, PyObject *var) {
     return -1;
   }
 
-  self->sitem->FrameRate(fps);
+  try {
+    self->sitem->FrameRate(fps);
+  } catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return -1;
+  }
+
   return 0;
 }
 
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 5019a70..7f0156a 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -123,7 +123,7 @@ PyObject *Bone::GetTMType(Bone *self) {
   return PyLong_FromLong(self->item->TMType());
 }
 
-PyObject *Bone::GetTM(Bone *self) {
+PyObject *Bone::GetTM(Bone *self) try {
   switch (self->item->TMType()) {
   case uni::TransformType::TMTYPE_MATRIX: {
     esMatrix44 mtx;
@@ -139,6 +139,9 @@ PyObject *Bone::GetTM(Bone *self) {
     Py_INCREF(Py_None);
     return Py_None;
   }
+} catch (const std::exception &e) {
+  PyErr_SetString(PyExc_RuntimeError, e.what());
+  return nullptr;
 }
 
 PyObject *Bone::GetIndex(Bone *self) {
-- 
2.43.0


From b3e241af74fd1cda63fe74d7c1f4e30fe7675c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 104/107] fix: list type of python skeletons was declared but
 missing

---
 uni/python/pyskeleton.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 7f0156a..b160896 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -226,6 +226,8 @@ static PyTypeObject skeletonType = {
 
 PyTypeObject *Skeleton::GetType() { return &skeletonType; }
 
+PyTypeObject *Skeleton::GetListType() { return SkeletonList::GetType(); }
+
 void Skeleton::Dealloc(Skeleton *self) {
   { auto t0 = std::move(self->item); }
   Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
-- 
2.43.0


From aa0ba552d211a227610f487ae756a503eb1c6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 105/107] fix: 3ds Max helpers compile again (shadowed template
 parameter, missing inline macros)

---
 MAXex/MapsCore.h   | 8 ++++++--
 MAXex/NodeSuffix.h | 7 +++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/MAXex/MapsCore.h b/MAXex/MapsCore.h
index 37a55ef..f35b448 100644
--- a/MAXex/MapsCore.h
+++ b/MAXex/MapsCore.h
@@ -3,6 +3,10 @@
 #include <iparamm2.h>
 #include <iFnPub.h>
 
+#ifndef ES_FORCEINLINE
+#define ES_FORCEINLINE inline
+#endif
+
 #define ACCFUNC(fname, type) ES_FORCEINLINE void fname(type input) const { Set<Params_e, e##fname, type>(input); } \
 ES_FORCEINLINE type fname() const { return Get<Params_e, e##fname, type>(); }
 
@@ -15,8 +19,8 @@ ES_FORCEINLINE type fname() const { return static_cast<outType>(Get<Params_e, e#
 template<class C>class MapBase_t
 {
 protected:
-	template<class C, C E, class T> ES_FORCEINLINE T Get() const { T retval; ivalid.SetInfinite(); params->GetValue(E, 0, retval, ivalid, index); return retval; }
-	template<class C, C E, class T> ES_FORCEINLINE void Set(T ival) const { params->SetValue(E, 0, ival, index); }
+	template<class PC, PC E, class T> ES_FORCEINLINE T Get() const { T retval; ivalid.SetInfinite(); params->GetValue(E, 0, retval, ivalid, index); return retval; }
+	template<class PC, PC E, class T> ES_FORCEINLINE void Set(T ival) const { params->SetValue(E, 0, ival, index); }
 protected:
 	IParamBlock2 *params;
 	C *tmapRef;
diff --git a/MAXex/NodeSuffix.h b/MAXex/NodeSuffix.h
index 009a446..c6a2da0 100644
--- a/MAXex/NodeSuffix.h
+++ b/MAXex/NodeSuffix.h
@@ -3,6 +3,13 @@
 #include <algorithm>
 #include "datas/supercore.hpp"
 
+#ifndef ES_FORCEINLINE
+#define ES_FORCEINLINE inline
+#endif
+#ifndef ES_INLINE
+#define ES_INLINE inline
+#endif
+
 class INode;
 
 class INodeSuffixer : public std::vector<int>
-- 
2.43.0


From f8f10844c0488d09c2612ebe0517a6acc8a495ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 106/107] fix: a frame rate from Python that does not fit is
 refused instead of cut

---
 uni/python/pymotion.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index e0b81d2..eb2ff85 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -337,6 +337,11 @@ int Motion::SetFrameRate(Motion *self, PyObject *var) {
     return -1;
   }
 
+  if (static_cast<uint64>(fps) > 0xffffffff) {
+    PyErr_SetString(PyExc_OverflowError, "framerate out of range");
+    return -1;
+  }
+
   try {
     self->sitem->FrameRate(fps);
   } catch (const std::exception &e) {
-- 
2.43.0


From 0408b66ae8e6534d8336abcb97c033c9caa975ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:03 +0000
Subject: [PATCH 107/107] fix: enum descriptions are initialized once when
 threads ask for them at the same time

---
 datas/internal/reflector_enum.hpp     | 8 --------
 datas/internal/reflector_enum_reg.hpp | 7 +++----
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/datas/internal/reflector_enum.hpp b/datas/internal/reflector_enum.hpp
index 92e6f1a..d1934af 100644
--- a/datas/internal/reflector_enum.hpp
+++ b/datas/internal/reflector_enum.hpp
@@ -65,14 +65,6 @@ constexpr size_t _GetReflEnumItemSize(const char (&value)[n]) {
     }                                                                          \
     static constexpr es::string_view GetClassName() { return #classname; }     \
     static constexpr JenHash GetHash() { return JenHash(#classname); }         \
-    static bool Initialized(bool yes) {                                        \
-      static bool inited = false;                                              \
-      if (!inited && yes) {                                                    \
-        inited = true;                                                         \
-        return true;                                                           \
-      }                                                                        \
-      return inited;                                                           \
-    }                                                                          \
   };
 
 #define _REFLECTOR_ENUM_VER0(classname, ...)                                   \
diff --git a/datas/internal/reflector_enum_reg.hpp b/datas/internal/reflector_enum_reg.hpp
index eb93e75..84f2621 100644
--- a/datas/internal/reflector_enum_reg.hpp
+++ b/datas/internal/reflector_enum_reg.hpp
@@ -71,10 +71,9 @@ public:
                _EnumWrap<E>::GetNames() + _EnumWrap<E>::NUM_ITEMS),
         values(_EnumWrap<E>::GetValues()), name(_EnumWrap<E>::GetClassName()),
         hash(_EnumWrap<E>::GetHash()) {
-    if (!_EnumWrap<E>::Initialized(false)) {
-      _REnumInitializer<E>();
-      _EnumWrap<E>::Initialized(true);
-    }
+    // once, also when threads come here at the same time
+    static const bool inited = (_REnumInitializer<E>(), true);
+    (void)inited;
   }
 
   using parent::size;
-- 
2.43.0

