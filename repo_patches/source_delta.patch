From 2d1ffedbe4a30ad9a04dbbb88b4401f96744ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 01/13] fix: reject out-of-range type bytes instead of reading
 past the operator tables

---
 src/expr/operator_vector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index d369f69..15a98db 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -374,6 +374,9 @@ eoe:
 }
 
 bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
+  if (type >= TYPE_NUM) {
+    return false;
+  }
   const auto *op = ops[type];
   if (op != nullptr) {
     Add(op);
@@ -385,6 +388,9 @@ bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
 bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte b) {
   Byte dst = (Byte)(b >> 4);
   Byte src = (Byte)(b & 0x0F);
+  if (dst >= TYPE_NUM || src >= TYPE_NUM) {
+    return false;
+  }
   if (dst == src) {
     return true;
   }
-- 
2.43.0


From 10bde95eb9a15b81d7db895ab39e5101592b87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 02/13] fix: reject DECIMAL constants, which are not supported,
 instead of dropping them

---
 src/expr/operator_vector.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 15a98db..60456f5 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -152,11 +152,10 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
-    case CONST_DECIMAL: {
-      ++p;
+    case CONST_DECIMAL:
       // TODO
+      successful = false;
       break;
-    }
     case CONST_STRING: {
       ++p;
       String v;
-- 
2.43.0


From 332ff9921a96b6201dd015649a020cec39087aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 03/13] fix: reject SUB<STRING>, which concatenated its
 operands

---
 src/expr/operators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/operators.cc b/src/expr/operators.cc
index 8b60085..99a2ed8 100644
--- a/src/expr/operators.cc
+++ b/src/expr/operators.cc
@@ -211,7 +211,7 @@ const Operator *const OP_SUB[] = {
     [TYPE_FLOAT]   = new BinaryArithmeticOperator<TYPE_FLOAT, calc::Sub>,
     [TYPE_DOUBLE]  = new BinaryArithmeticOperator<TYPE_DOUBLE, calc::Sub>,
     [TYPE_DECIMAL] = nullptr,
-    [TYPE_STRING]  = new BinaryArithmeticOperator<TYPE_STRING, calc::Add>,
+    [TYPE_STRING]  = nullptr,
 };
 
 const Operator *const OP_MUL[] = {
-- 
2.43.0


From b178e1e60ae6a0a4c311d8d8e0e918853043a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 04/13] fix: drop the bits of a varint beyond the width of its
 type

Shifting by the width of the type or more is undefined; negative INT32
values in their ten byte Protocol Buffers form decoded to wrong values.
---
 src/expr/codec.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 014bb00..968c386 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -30,10 +30,14 @@ static const Byte *DecodeVarint(T &value, const Byte *data) {
   const Byte *p;
   int shift = 0;
   for (p = data; ((*p) & 0x80) != 0; ++p) {
-    value |= ((T)(*p & 0x7F) << shift);
-    shift += 7;
+    if (shift < sizeof(T) * 8) {
+      value |= ((T)(*p & 0x7F) << shift);
+      shift += 7;
+    }
+  }
+  if (shift < sizeof(T) * 8) {
+    value |= ((T)(*p) << shift);
   }
-  value |= ((T)(*p) << shift);
   return p + 1;
 }
 
-- 
2.43.0


From c7bece23fb10b553bbf8992344b4750e9ef15e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 05/13] fix: never read beyond the end of the code when
 decoding

Truncated programs and plans are rejected with an exception.
---
 src/expr/codec.cc           | 45 +++++++++++++++++++++++--------------
 src/expr/codec.h            | 27 +++++++++++-----------
 src/expr/exception.h        |  6 +++++
 src/expr/operator_vector.cc | 33 +++++++++++++++------------
 src/rel/rel_runner.cc       |  7 +++++-
 src/rel/rel_runner.h        |  2 +-
 6 files changed, 74 insertions(+), 46 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 968c386..2011115 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -24,16 +24,24 @@
 
 namespace dingodb::expr {
 
+static void CheckAvailable(const Byte *data, const Byte *end, size_t len) {
+  if (end != nullptr && (size_t)(end - data) < len) {
+    throw UnexpectedEnd();
+  }
+}
+
 template <typename T>
-static const Byte *DecodeVarint(T &value, const Byte *data) {
+static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   value = 0;
   const Byte *p;
   int shift = 0;
+  CheckAvailable(data, end, 1);
   for (p = data; ((*p) & 0x80) != 0; ++p) {
     if (shift < sizeof(T) * 8) {
       value |= ((T)(*p & 0x7F) << shift);
       shift += 7;
     }
+    CheckAvailable(p + 1, end, 1);
   }
   if (shift < sizeof(T) * 8) {
     value |= ((T)(*p) << shift);
@@ -42,53 +50,56 @@ static const Byte *DecodeVarint(T &value, const Byte *data) {
 }
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data) {
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
+  CheckAvailable(data, end, 4);
   uint32_t l = be32toh(*(uint32_t *)data);
   value = *(float *)&l;
   return data + 4;
 }
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data) {
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
+  CheckAvailable(data, end, 8);
   uint64_t l = be64toh(*(uint64_t *)data);
   value = *(double *)&l;
   return data + 8;
 }
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data) {
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end) {
   uint32_t len;
-  const Byte *p = DecodeValue(len, data);
+  const Byte *p = DecodeValue(len, data, end);
+  CheckAvailable(p, end, len);
   value = String(reinterpret_cast<const char *>(p), len);
   return p + len;
 }
diff --git a/src/expr/codec.h b/src/expr/codec.h
index d33bad7..ec6c945 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -29,44 +29,45 @@ namespace dingodb::expr {
  * @tparam T type of the value
  * @param value reference to the value
  * @param data code buffer
+ * @param end end of the code buffer, which is never read beyond, or `nullptr` if unknown
  * @return const Byte* point to the next byte of the bytes used
  */
 template <typename T>
-const Byte *DecodeValue(T &value, const Byte *data);
+const Byte *DecodeValue(T &value, const Byte *data, const Byte *end = nullptr);
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data);
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data);
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data);
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
   int i;
   for (i = 0; i < count && p < code + len; ++i) {
-    p = DecodeValue(container[i], p);
+    p = DecodeValue(container[i], p, code + len);
   }
   if (i < count) {
     throw MoreElementsRequired(count, i);
@@ -77,7 +78,7 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -86,7 +87,7 @@ template <typename T>
 const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
diff --git a/src/expr/exception.h b/src/expr/exception.h
index e66b7d5..f6f4e2d 100644
--- a/src/expr/exception.h
+++ b/src/expr/exception.h
@@ -46,6 +46,12 @@ class UnknownCode : public ExprError {
   }
 };
 
+class UnexpectedEnd : public ExprError {
+ public:
+  UnexpectedEnd() : ExprError("Unexpected end of code.") {
+  }
+};
+
 class MoreElementsRequired : public ExprError {
  public:
   MoreElementsRequired(int required, int actual)
diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 60456f5..bf703ec 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -95,6 +95,11 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
   const Byte *b;
   while (successful && p < code + len) {
     b = p;
+    // The operators with HSB set are all of two bytes.
+    if ((*p & 0x80) != 0 && p + 1 == code + len) {
+      successful = false;
+      break;
+    }
     switch (*p) {
     case NULL_INT32:
       ++p;
@@ -123,14 +128,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(v));
       break;
     }
     case CONST_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(v));
       break;
     }
@@ -141,14 +146,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_FLOAT: {
       ++p;
       float v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_FLOAT>(v));
       break;
     }
     case CONST_DOUBLE: {
       ++p;
       double v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
@@ -159,21 +164,21 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_STRING: {
       ++p;
       String v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_STRING>(v));
       break;
     }
     case CONST_N_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(-v));
       break;
     }
     case CONST_N_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(-v));
       break;
     }
@@ -184,49 +189,49 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case VAR_I_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT32>(v));
       break;
     }
     case VAR_I_INT64: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT64>(v));
       break;
     }
     case VAR_I_BOOL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_BOOL>(v));
       break;
     }
     case VAR_I_FLOAT: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_FLOAT>(v));
       break;
     }
     case VAR_I_DOUBLE: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DOUBLE>(v));
       break;
     }
     case VAR_I_DECIMAL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DECIMAL>(v));
       break;
     }
     case VAR_I_STRING: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_STRING>(v));
       break;
     }
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 96bfe85..8c63a64 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -128,8 +128,13 @@ const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte
 }
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data) {
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end) {
   const Byte *p = data;
+  if (*p != rel::AGG_COUNT_ALL) {
+    // Make sure the column index is complete.
+    int32_t index;
+    DecodeValue(index, p + 1, end);
+  }
   switch (*p) {
   case rel::AGG_COUNT_ALL:
     p = DecodeAgg<rel::op::CountAllAgg>(value, p);
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index a505af9..dd46fd7 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -62,7 +62,7 @@ template <>
 const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data);
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data);
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end);
 
 }  // namespace dingodb::expr
 
-- 
2.43.0


From fcb04c03cdde81b91143619b3cc0a37d9074cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 06/13] fix: check array lengths against the code size before
 allocating

---
 src/expr/codec.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index ec6c945..7a161e0 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -75,10 +75,21 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
   return p;
 }
 
+/**
+ * @brief Make sure the code buffer can hold the elements of an array before allocating space for them. Each element takes
+ * at least one byte.
+ */
+inline void CheckElements(size_t count, const Byte *code, const Byte *end) {
+  if (count > (size_t)(end - code)) {
+    throw MoreElementsRequired(count, end - code);
+  }
+}
+
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
+  CheckElements(count, p, code + len);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -88,6 +99,7 @@ const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
   p = DecodeValue(count, p, code + len);
+  CheckElements(count, p, code + len);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
-- 
2.43.0


From 64469da57ebd901a70235ae5be581b02c740f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 07/13] fix: reject a grouped aggregation without INT32 group
 indices

The assertion is compiled out of release builds.
---
 src/rel/rel_runner.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 8c63a64..7ea6b47 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,8 +14,6 @@
 
 #include "rel_runner.h"
 
-#include <cassert>
-
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -71,7 +69,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     }
     case GROUPED_AGGREGATE: {
       ++p;
-      assert(*p == ARRAY_INT32);
+      if (p == code + len || *p != ARRAY_INT32) {
+        successful = false;
+        break;
+      }
       ++p;
       int32_t *groupe_indices;
       size_t count;
-- 
2.43.0


From 54b3e44de74db40f118ef2c2ff4b354430b80a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 08/13] fix: do not trap on dividing the smallest integer by -1

The quotient wraps, like those of the other operators do.
---
 src/expr/calc/arithmetic.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/expr/calc/arithmetic.h b/src/expr/calc/arithmetic.h
index 5d26385..9cc5d8c 100644
--- a/src/expr/calc/arithmetic.h
+++ b/src/expr/calc/arithmetic.h
@@ -15,6 +15,8 @@
 #ifndef _EXPR_CALC_ARITHMETIC_H_
 #define _EXPR_CALC_ARITHMETIC_H_
 
+#include <type_traits>
+
 #include "../operand.h"
 
 namespace dingodb::expr::calc {
@@ -47,6 +49,11 @@ T Mul(T v0, T v1) {
 template <typename T>
 Operand Div(T v0, T v1) {
   if (v1 != 0) {
+    if constexpr (std::is_integral_v<T>) {
+      if (v1 == -1) {  // May overflow, which traps on some platforms.
+        return (T)(0 - (std::make_unsigned_t<T>)v0);
+      }
+    }
     return v0 / v1;
   }
   return nullptr;
@@ -55,6 +62,9 @@ Operand Div(T v0, T v1) {
 template <typename T>
 Operand Mod(T v0, T v1) {
   if (v1 != 0) {
+    if (v1 == -1) {  // The quotient may overflow, which traps on some platforms.
+      return (T)0;
+    }
     return v0 % v1;
   }
   return nullptr;
-- 
2.43.0


From 1ed38d4fed42ede0a82856b635600a624ef6f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 09/13] fix: report missing operands instead of reading an
 empty stack

---
 src/expr/operand_stack.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/expr/operand_stack.h b/src/expr/operand_stack.h
index 0a80ff1..d6dd1af 100644
--- a/src/expr/operand_stack.h
+++ b/src/expr/operand_stack.h
@@ -34,6 +34,9 @@ class OperandStack {
   }
 
   Operand Get() const {
+    if (m_stack.empty()) {
+      throw std::runtime_error("No operand in the stack.");
+    }
     return m_stack.back();
   }
 
-- 
2.43.0


From 01d29982ebd62bf8e4442e11a4de1ab7e9e2faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 10/13] fix: accept the EOE of aggregations

README.md specifies it as the trailing byte of every algebra operator.
---
 src/rel/rel_runner.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 7ea6b47..f3ab487 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -38,6 +38,13 @@ static const expr::Byte AGG_SUM = 0x20;
 static const expr::Byte AGG_MAX = 0x30;
 static const expr::Byte AGG_MIN = 0x40;
 
+static const expr::Byte EOE = 0x00;
+
+// Aggregations need no `EOE` to be terminated, so it may be absent.
+static const expr::Byte *SkipEoe(const expr::Byte *p, const expr::Byte *end) {
+  return p < end && *p == EOE ? p + 1 : p;
+}
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -79,6 +86,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
       std::vector<const op::Agg *> *aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
+      p = SkipEoe(p, code + len);
       AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
       break;
     }
@@ -86,6 +94,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       ++p;
       std::vector<const op::Agg *> *aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
+      p = SkipEoe(p, code + len);
       AppendOp(new op::UngroupedAggOp(aggs));
       break;
     }
-- 
2.43.0


From 3f2379c4e7f940271c874b24653be155788c871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 11/13] fix: release the tuple when putting it throws

Put takes over the ownership of the tuple, and nobody else can release
those passed between the operators.
---
 README.md                | 2 +-
 src/rel/op/agg_op.cc     | 4 +++-
 src/rel/op/filter_op.cc  | 6 ++++--
 src/rel/op/project_op.cc | 4 +++-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/README.md b/README.md
index 3fa130b..0c0f80d 100644
--- a/README.md
+++ b/README.md
@@ -83,7 +83,7 @@ while ((const auto *output = rel->Get()) != nullptr) {
 
 Note:
 
-- The `RelRunner` takes over the ownership of the `Tuple` put in. The caller must not try to release it
+- The `RelRunner` takes over the ownership of the `Tuple` put in, even if `Put` throws. The caller must not try to release it
 - If the `output` returned either by `Put` or `Get` is not `nullptr`, it must be released by the caller
 - The implementation of `RelRunner` is not thread-safe
 
diff --git a/src/rel/op/agg_op.cc b/src/rel/op/agg_op.cc
index 3e827d9..fb5e5d7 100644
--- a/src/rel/op/agg_op.cc
+++ b/src/rel/op/agg_op.cc
@@ -12,6 +12,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <memory>
+
 #include "ungrouped_agg_op.h"
 
 namespace dingodb::rel::op {
@@ -27,13 +29,13 @@ AggOp::~AggOp() {
 }
 
 void AggOp::AddToCache(expr::Tuple *&cache, const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> owner(tuple);
   if (cache == nullptr) {
     cache = new expr::Tuple(m_aggs->size());
   }
   for (int i = 0; i < m_aggs->size(); ++i) {
     (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
   }
-  delete tuple;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/filter_op.cc b/src/rel/op/filter_op.cc
index 488a978..795e914 100644
--- a/src/rel/op/filter_op.cc
+++ b/src/rel/op/filter_op.cc
@@ -14,6 +14,8 @@
 
 #include "filter_op.h"
 
+#include <memory>
+
 #include "../../expr/calc/special.h"
 #include "../../expr/runner.h"
 
@@ -27,13 +29,13 @@ FilterOp::~FilterOp() {
 }
 
 const expr::Tuple *FilterOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> owner(tuple);
   m_filter->BindTuple(tuple);
   m_filter->Run();
   auto v = m_filter->Get();
   if (expr::calc::IsTrue<bool>(v)) {
-    return tuple;
+    return owner.release();
   }
-  delete tuple;
   return nullptr;
 }
 
diff --git a/src/rel/op/project_op.cc b/src/rel/op/project_op.cc
index ba9f33e..10d1b26 100644
--- a/src/rel/op/project_op.cc
+++ b/src/rel/op/project_op.cc
@@ -14,6 +14,8 @@
 
 #include "project_op.h"
 
+#include <memory>
+
 #include "../../expr/runner.h"
 
 namespace dingodb::rel::op {
@@ -26,9 +28,9 @@ ProjectOp::~ProjectOp() {
 }
 
 const expr::Tuple *ProjectOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> owner(tuple);
   m_projects->BindTuple(tuple);
   m_projects->Run();
-  delete tuple;
   return m_projects->GetAll();
 }
 
-- 
2.43.0


From e675d6c897e9904a205102c706caedffc539b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 12/13] fix: release the parts of a plan when its decoding
 fails

---
 src/expr/codec.h      |  7 +++++--
 src/rel/rel_runner.cc | 32 +++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index 7a161e0..d99939a 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -16,6 +16,7 @@
 #define _EXPR_CODEC_H_
 
 #include <cstddef>
+#include <memory>
 #include <vector>
 
 #include "exception.h"
@@ -90,8 +91,10 @@ const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
   CheckElements(count, p, code + len);
-  arr = new T[count];
-  return DecodeElements(arr, count, p, code + len - p);
+  std::unique_ptr<T[]> elements(new T[count]);
+  p = DecodeElements(elements, count, p, code + len - p);
+  arr = elements.release();
+  return p;
 }
 
 template <typename T>
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index f3ab487..7be8a31 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,6 +14,8 @@
 
 #include "rel_runner.h"
 
+#include <memory>
+
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -45,6 +47,21 @@ static const expr::Byte *SkipEoe(const expr::Byte *p, const expr::Byte *end) {
   return p < end && *p == EOE ? p + 1 : p;
 }
 
+static const expr::Byte *DecodeAggs(std::vector<const op::Agg *> *&aggs, const expr::Byte *code, size_t len) {
+  aggs = nullptr;
+  try {
+    return expr::DecodeVector(aggs, code, len);
+  } catch (...) {
+    if (aggs != nullptr) {
+      for (const auto *agg : *aggs) {
+        delete agg;
+      }
+      delete aggs;
+    }
+    throw;
+  }
+}
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -62,16 +79,16 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     switch (*p) {
     case FILTER_OP: {
       ++p;
-      auto *filter = new expr::Runner();
+      auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter));
+      AppendOp(new op::FilterOp(filter.release()));
       break;
     }
     case PROJECT_OP: {
       ++p;
-      auto *projects = new expr::Runner();
+      auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects));
+      AppendOp(new op::ProjectOp(projects.release()));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -84,16 +101,17 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       int32_t *groupe_indices;
       size_t count;
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
+      std::unique_ptr<int32_t[]> indices_owner(groupe_indices);
       std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
+      p = DecodeAggs(aggs, p, code + len - p);
       p = SkipEoe(p, code + len);
-      AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
+      AppendOp(new op::GroupedAggOp(indices_owner.release(), count, aggs));
       break;
     }
     case UNGROUPED_AGGREGATE: {
       ++p;
       std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
+      p = DecodeAggs(aggs, p, code + len - p);
       p = SkipEoe(p, code + len);
       AppendOp(new op::UngroupedAggOp(aggs));
       break;
-- 
2.43.0


From fa4bbcd0bb12e914ac739513a7f206f5b4ce1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 13/13] fix: connect the operators of a plan with logarithmic
 depth

Long chains of operators overflowed the stack when rows were put into them and
when they were released.
---
 src/rel/rel_runner.cc | 36 ++++++++++++++++++++++++------------
 src/rel/rel_runner.h  |  2 --
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 7be8a31..a77aee2 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -15,6 +15,7 @@
 #include "rel_runner.h"
 
 #include <memory>
+#include <vector>
 
 #include "../expr/exception.h"
 #include "../expr/runner.h"
@@ -62,6 +63,21 @@ static const expr::Byte *DecodeAggs(std::vector<const op::Agg *> *&aggs, const e
   }
 }
 
+// Connects `ops` from `begin` to `end` in order. The depth of the result is logarithmic, so it can be called and released
+// recursively however many operators there are.
+static RelOp *Connect(std::vector<std::unique_ptr<RelOp>> &ops, size_t begin, size_t end) {
+  if (end - begin == 1) {
+    return ops[begin].release();
+  }
+  const size_t middle = begin + (end - begin) / 2;
+  std::unique_ptr<RelOp> in(Connect(ops, begin, middle));
+  std::unique_ptr<RelOp> out(Connect(ops, middle, end));
+  auto *tandem = new op::TandemOp(in.get(), out.get());
+  in.release();
+  out.release();
+  return tandem;
+}
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -71,6 +87,7 @@ RelRunner::~RelRunner() {
 
 const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
   Release();
+  std::vector<std::unique_ptr<RelOp>> ops;
   bool successful = true;
   const expr::Byte *p = code;
   const expr::Byte *b;
@@ -81,14 +98,14 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       ++p;
       auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter.release()));
+      ops.emplace_back(new op::FilterOp(filter.release()));
       break;
     }
     case PROJECT_OP: {
       ++p;
       auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects.release()));
+      ops.emplace_back(new op::ProjectOp(projects.release()));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -105,7 +122,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       std::vector<const op::Agg *> *aggs;
       p = DecodeAggs(aggs, p, code + len - p);
       p = SkipEoe(p, code + len);
-      AppendOp(new op::GroupedAggOp(indices_owner.release(), count, aggs));
+      ops.emplace_back(new op::GroupedAggOp(indices_owner.release(), count, aggs));
       break;
     }
     case UNGROUPED_AGGREGATE: {
@@ -113,7 +130,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       std::vector<const op::Agg *> *aggs;
       p = DecodeAggs(aggs, p, code + len - p);
       p = SkipEoe(p, code + len);
-      AppendOp(new op::UngroupedAggOp(aggs));
+      ops.emplace_back(new op::UngroupedAggOp(aggs));
       break;
     }
     default:
@@ -122,6 +139,9 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     }
   }
   if (successful) {
+    if (!ops.empty()) {
+      m_op = Connect(ops, 0, ops.size());
+    }
     return p;
   }
   throw std::runtime_error("Unknown instruction, bytes = " + expr::HexOfBytes(b, len - (b - code)));
@@ -135,14 +155,6 @@ const expr::Tuple *RelRunner::Get() const {
   return m_op->Get();
 }
 
-void RelRunner::AppendOp(RelOp *op) {
-  if (m_op != nullptr) {
-    m_op = new op::TandemOp(m_op, op);
-  } else {
-    m_op = op;
-  }
-}
-
 }  // namespace dingodb::rel
 
 namespace dingodb::expr {
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index dd46fd7..8606410 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -40,8 +40,6 @@ class RelRunner {
     delete m_op;
     m_op = nullptr;
   }
-
-  void AppendOp(RelOp *op);
 };
 
 }  // namespace dingodb::rel
-- 
2.43.0

