From 1cfd1a618cc6536e39e4b56bd0110608aead2dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 01/49] fix: DATE(...) cast aborted the interpreter instead of
 being diagnosed

---
 src/parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index 8446c90..88dce82 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -17,6 +17,8 @@ PSC::DataType Parser::getPSCType() {
         return PSC::DataType::CHAR;
     } else if (currentToken->value == "STRING") {
         return PSC::DataType::STRING;
+    } else if (currentToken->value == "DATE") {
+        return PSC::DataType::DATE;
     } else {
         std::abort();
     }
-- 
2.43.0


From 898477ded3590e4a27c20c3fff252d87e926d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 02/49] fix: numeric literals outside the representable range
 raised an uncaught exception

---
 src/nodes/eval/arithmetic.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 86f63e6..08959ad 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -3,15 +3,26 @@
 #include "pch.h"
 
 #include <chrono>
+#include <cmath>
+#include <cstdlib>
 #include <memory>
+#include <stdexcept>
 #include "psc/error.h"
 #include "nodes/eval/arithmetic.h"
 #include "psc/types/datatypes.h"
 #include "psc/types/type_definitions.h"
 #include "psc/types/types.h"
 
+static PSC::int_t makeInteger(const Token &token) {
+    try {
+        return std::stol(token.value);
+    } catch (const std::out_of_range&) {
+        throw PSC::SyntaxError(token, "Integer literal is too large");
+    }
+}
+
 IntegerNode::IntegerNode(const Token &token)
-    : Node(token), valueInt(std::stol(token.value))
+    : Node(token), valueInt(makeInteger(token))
 {}
 
 std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
@@ -19,8 +30,16 @@ std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
 }
 
 
+static PSC::real_t makeReal(const Token &token) {
+    // strtod (unlike std::stod) yields the nearest value for literals too close to zero
+    PSC::real_t value = std::strtod(token.value.c_str(), nullptr);
+    if (std::isinf(value))
+        throw PSC::SyntaxError(token, "Real literal is too large");
+    return value;
+}
+
 RealNode::RealNode(const Token &token)
-    : Node(token), valueReal(std::stod(token.value))
+    : Node(token), valueReal(makeReal(token))
 {}
 
 std::unique_ptr<NodeResult> RealNode::evaluate(PSC::Context&) {
-- 
2.43.0


From c4ab6df2646a851a7ca0ed45f389ea4460efd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 03/49] fix: date literal components were narrowed before being
 checked, huge ones aborted

---
 src/nodes/eval/arithmetic.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 08959ad..d09a47e 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -77,9 +77,21 @@ inline PSC::Date makeDate(const std::string &dateStr) {
         else yearStr += c;
     }
 
-    std::chrono::day day(std::stoul(dayStr));
-    std::chrono::month month(std::stoul(monthStr));
-    std::chrono::year year(std::stoul(yearStr));
+    // Date components are narrow types: check the range before converting
+    unsigned long d, m, y;
+    try {
+        d = std::stoul(dayStr);
+        m = std::stoul(monthStr);
+        y = std::stoul(yearStr);
+    } catch (const std::out_of_range&) {
+        return PSC::Date(); // not a valid date
+    }
+    if (d > 31 || m > 12 || y > (unsigned long) static_cast<int>(std::chrono::year::max()))
+        return PSC::Date(); // not a valid date
+
+    std::chrono::day day(d);
+    std::chrono::month month(m);
+    std::chrono::year year(y);
 
     return PSC::Date(std::chrono::year_month_day(year, month, day));
 }
-- 
2.43.0


From f44e85e09dd8bb056a803578f98c732d905a8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 04/49] fix: SETDATE narrowed its arguments before checking
 them, out-of-range ones produced a different date

---
 src/psc/builtinFunctions/date.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/psc/builtinFunctions/date.cpp b/src/psc/builtinFunctions/date.cpp
index a24dc1b..1c54b83 100644
--- a/src/psc/builtinFunctions/date.cpp
+++ b/src/psc/builtinFunctions/date.cpp
@@ -90,9 +90,17 @@ void PSC::BuiltinFnSETDATE::run(PSC::Context &ctx) {
     PSC::Variable *yearVar = ctx.getVariable("Year");
     if (yearVar == nullptr || yearVar->type != PSC::DataType::INTEGER) std::abort();
 
-    day day(dayVar->get<PSC::Integer>().value);
-    month month(monthVar->get<PSC::Integer>().value);
-    year year(yearVar->get<PSC::Integer>().value);
+    PSC::int_t d = dayVar->get<PSC::Integer>().value;
+    PSC::int_t m = monthVar->get<PSC::Integer>().value;
+    PSC::int_t y = yearVar->get<PSC::Integer>().value;
+    // day, month and year are narrow types: check the range before converting
+    if (d < 1 || d > 31 || m < 1 || m > 12
+        || y < static_cast<int>(year::min()) || y > static_cast<int>(year::max()))
+        throw PSC::RuntimeError(PSC::errToken, ctx, "Invalid Date!");
+
+    day day(d);
+    month month(m);
+    year year(y);
 
     year_month_day ymd(year, month, day);
     if (!ymd.ok())
-- 
2.43.0


From dc62b1ebae76c3a9f0d4f0f74f196454e58e66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 05/49] fix: using an expression without a value (a nested
 assignment) as an operand crashed

---
 src/nodes/cast.cpp              | 2 +-
 src/nodes/eval/stringcat.cpp    | 3 ++-
 src/nodes/selection/case.cpp    | 2 +-
 src/nodes/variable/variable.cpp | 2 ++
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index ca1141f..183b057 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -10,7 +10,7 @@ CastNode::CastNode(const Token &token, Node &node, PSC::DataType target)
 std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
     auto value = node.evaluate(ctx);
 
-    if (!value->data->isPrimitive())
+    if (value->data == nullptr || !value->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
 
diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 6e3d971..ae3a80e 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -7,7 +7,8 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto leftRes = left.evaluate(ctx);
     auto rightRes = right.evaluate(ctx);
 
-    if (!leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
+    if (leftRes->data == nullptr || rightRes->data == nullptr
+        || !leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "'&'");
 
     auto leftStr = static_cast<const PSC::Primitive*>(leftRes->data.get())->toString();
diff --git a/src/nodes/selection/case.cpp b/src/nodes/selection/case.cpp
index 941c025..814d0dc 100644
--- a/src/nodes/selection/case.cpp
+++ b/src/nodes/selection/case.cpp
@@ -41,8 +41,8 @@ bool EqualsCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
         case PSC::DataType::POINTER:
             return value.get<PSC::Pointer>().getValue() == res->get<PSC::Pointer>().getValue();
         case PSC::DataType::COMPOSITE:
+        case PSC::DataType::NONE:
             return false;
-        case PSC::DataType::NONE: ;
     }
     std::abort();
 }
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b287444..d3cc9ff 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -74,6 +74,8 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         assignArray(ctx, e);
         return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
     }
+    if (valueRes->type == PSC::DataType::NONE)
+        throw PSC::InvalidUsageError(token, ctx, "assignment operator: expression has no value");
 
     PSC::Variable *var;
     try {
-- 
2.43.0


From 5a9ddc830b8758a8b427a8f10f49baf229e5bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 06/49] fix: DIV and MOD of the smallest integer by -1 trapped
 (SIGFPE)

---
 src/psc/types/numeric.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/numeric.cpp b/src/psc/types/numeric.cpp
index cc023a4..23dbc3b 100644
--- a/src/psc/types/numeric.cpp
+++ b/src/psc/types/numeric.cpp
@@ -118,7 +118,9 @@ real_t modReal(real_t x, real_t y) {
 std::unique_ptr<Number> Number::operator%(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value % (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // The remainder by -1 is 0, but computing it traps for the smallest integer
+        int_t x = divisor == -1 ? 0 : ((Integer*) this)->value % divisor;
         return std::make_unique<Integer>(x);
     }
 
@@ -142,7 +144,10 @@ std::unique_ptr<Number> Number::operator%(const Number &other) const {
 std::unique_ptr<Number> Number::operator|(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value / (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // Dividing the smallest integer by -1 traps: negate, wrapping like other integer arithmetic
+        int_t x = divisor == -1 ? (int_t) (0UL - (unsigned long) ((Integer*) this)->value)
+            : ((Integer*) this)->value / divisor;
         return std::make_unique<Integer>(x);
     }
     
-- 
2.43.0


From 55994fac33b92cc0dfdd135e08ca8f5e5a20466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 07/49] fix: an enumerated type defined in a procedure had no
 values from the second call on

---
 src/nodes/variable/enum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/variable/enum.cpp b/src/nodes/variable/enum.cpp
index 6b26955..a7ecc37 100644
--- a/src/nodes/variable/enum.cpp
+++ b/src/nodes/variable/enum.cpp
@@ -11,7 +11,8 @@ std::unique_ptr<NodeResult> EnumDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false))
         throw PSC::RedefinitionError(token, ctx, name.value);
 
-    PSC::EnumTypeDefinition definition(name.value, std::move(values));
+    // This node may be evaluated again (in another call), so its values must be copied
+    PSC::EnumTypeDefinition definition(name.value, std::vector<std::string>(values));
     ctx.createEnumDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
-- 
2.43.0


From b44158563391828d51ecf3c505a973df3861a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 08/49] fix: user-defined types were compared and looked up by
 name, so same-named or local types were confused or crashed

---
 src/nodes/eval/arithmetic.cpp      |  6 ++--
 src/nodes/io/io.cpp                |  6 ++--
 src/nodes/variable/composite.cpp   |  2 +-
 src/nodes/variable/pointer.cpp     |  2 +-
 src/nodes/variable/resolver.cpp    |  2 +-
 src/nodes/variable/variable.cpp    |  2 +-
 src/psc/scope/block.cpp            |  6 ++--
 src/psc/scope/context.cpp          | 17 ++++++----
 src/psc/scope/context.h            |  3 +-
 src/psc/types/datatypes.h          |  8 ++---
 src/psc/types/type_definitions.cpp |  4 +--
 src/psc/types/type_definitions.h   |  4 ++-
 src/psc/types/type_names.cpp       |  6 ++--
 src/psc/types/types.cpp            |  9 +++--
 src/psc/types/types.h              | 20 ++++-------
 src/psc/types/userType.cpp         | 53 +++++++++++-------------------
 src/psc/variable.cpp               |  6 ++--
 17 files changed, 71 insertions(+), 85 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index d09a47e..3204eda 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -177,14 +177,14 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
             res = left - right;
         }
 
-        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
+        const PSC::EnumTypeDefinition &definition = enumVal.definition;
         std::size_t enumSize = definition.values.size();
         res %= enumSize;
         if (res < 0) res += enumSize;
 
-        std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition.name);
+        std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition);
         resEnum->idx = res;
-        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType::ENUM);
+        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType(PSC::DataType::ENUM, &definition));
     }
 
     if ((leftRes->type != PSC::DataType::INTEGER && leftRes->type != PSC::DataType::REAL)
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index e9e2202..a7b1708 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -41,13 +41,13 @@ std::unique_ptr<NodeResult> OutputNode::evaluate(PSC::Context &ctx) {
                 std::cout << str->value;
                 break;
             } case PSC::DataType::ENUM:
-                std::cout << result->get<PSC::Enum>().getString(ctx);
+                std::cout << result->get<PSC::Enum>().getString();
                 break;
             case PSC::DataType::POINTER:
-                std::cout << result->get<PSC::Pointer>().definitionName << " object";
+                std::cout << result->get<PSC::Pointer>().definition.name << " object";
                 break;
             case PSC::DataType::COMPOSITE:
-                std::cout << result->get<PSC::Composite>().definitionName << " object";
+                std::cout << result->get<PSC::Composite>().definition.name << " object";
                 break;
             case PSC::DataType::NONE:
                 std::cout.flush();
diff --git a/src/nodes/variable/composite.cpp b/src/nodes/variable/composite.cpp
index 50484da..6c005cc 100644
--- a/src/nodes/variable/composite.cpp
+++ b/src/nodes/variable/composite.cpp
@@ -11,7 +11,7 @@ std::unique_ptr<NodeResult> CompositeDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false))
         throw PSC::RedefinitionError(token, ctx, name.value);
     
-    PSC::CompositeTypeDefinition definition(name.value, initBlock);
+    PSC::CompositeTypeDefinition definition(name.value, initBlock, ctx);
     ctx.createCompositeDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/pointer.cpp b/src/nodes/variable/pointer.cpp
index 10a1694..8ca4e72 100644
--- a/src/nodes/variable/pointer.cpp
+++ b/src/nodes/variable/pointer.cpp
@@ -45,7 +45,7 @@ std::unique_ptr<NodeResult> PointerAssignNode::evaluate(PSC::Context &ctx) {
         throw PSC::RuntimeError(token, ctx, "Cannot assign pointer to variable not of type pointer");
 
     auto &pointer = pointerVar.get<PSC::Pointer>();
-    auto &pointerType = pointer.getDefinition(ctx).type;
+    auto &pointerType = pointer.definition.type;
     if (pointerType != value.type)
         throw PSC::RuntimeError(token, ctx, "Assignment Error: Incompatible data types");
     
diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 6b4db88..74c8044 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -89,7 +89,7 @@ PSC::DataHolder &CompositeResolver::resolve(PSC::Context &ctx) {
     auto &composite = var.get<PSC::Composite>();
     auto *memberPtr = composite.getMember(member.value);
     if (memberPtr == nullptr)
-        throw PSC::RuntimeError(token, ctx, "Type '" + composite.definitionName + "' has no member '" + member.value + "'");
+        throw PSC::RuntimeError(token, ctx, "Type '" + composite.definition.name + "' has no member '" + member.value + "'");
     
     if (isDynamic) cache.set(memberPtr, ctx);
     return *memberPtr;
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index d3cc9ff..ed42859 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -149,7 +149,7 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     } catch (PSC::NotDefinedError &e) {
         auto def = ctx.getEnumElement(token.value);
         if (def != nullptr)
-            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definitionName));
+            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definition));
         throw e;
     }
 
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index a80ad80..5ccd041 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -43,7 +43,7 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
             break;
         } case PSC::DataType::ENUM: {
             auto &resEnum = result->get<PSC::Enum>();
-            std::cout << resEnum.definitionName << ": " << resEnum.getString(ctx);
+            std::cout << resEnum.definition.name << ": " << resEnum.getString();
             break;
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
@@ -56,7 +56,7 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
                 if (tempCtx == nullptr) valid = false;
             }
 
-            std::cout << resPtr.definitionName << ": ";
+            std::cout << resPtr.definition.name << ": ";
             if (valid) {
                 PSC::Variable *ptrValue = resPtr.getValue();
                 const std::string &valueStr = ptrValue == nullptr ? "null" : ptrValue->name;
@@ -66,7 +66,7 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
             }
             break;
         } case PSC::DataType::COMPOSITE:
-            std::cout << result->get<PSC::Composite>().definitionName << " object";
+            std::cout << result->get<PSC::Composite>().definition.name << " object";
             break;
         case PSC::DataType::NONE:
             return;
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6b64d51..02efdec 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -14,8 +14,8 @@ Context::Context(Context *parent, const std::string &name, bool isFunctionCtx, P
     : parent(parent), name(name), isFunctionCtx(isFunctionCtx), isCompositeCtx(false), returnType(returnType)
 {}
 
-Context::Context(Context *parent, const std::string &name, bool isCompositeCtx)
-    : parent(parent), name(name), isFunctionCtx(false), isCompositeCtx(isCompositeCtx), returnType(PSC::DataType::NONE)
+Context::Context(Context *parent, const CompositeTypeDefinition &definition)
+    : parent(parent), typeScope(&definition.scope), name(definition.name), isFunctionCtx(false), isCompositeCtx(true), returnType(PSC::DataType::NONE)
 {}
 
 template<typename T, typename... Args>
@@ -29,6 +29,7 @@ void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<st
 
 Context::Context(const Context &other)
     : parent(other.parent),
+    typeScope(other.typeScope),
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
     isCompositeCtx(other.isCompositeCtx),
@@ -201,15 +202,15 @@ PSC::DataType Context::getType(const Token &token, bool global) {
     } else if (token.type == TokenType::IDENTIFIER) {
         auto *enumDefinition = getEnumDefinition(token.value, global);
         if (enumDefinition != nullptr)
-            return PSC::DataType(PSC::DataType::ENUM, &enumDefinition->name);
+            return PSC::DataType(PSC::DataType::ENUM, enumDefinition);
         
         auto *pointerDefinition = getPointerDefinition(token.value, global);
         if (pointerDefinition != nullptr)
-            return PSC::DataType(PSC::DataType::POINTER, &pointerDefinition->name);
+            return PSC::DataType(PSC::DataType::POINTER, pointerDefinition);
         
         auto *compositeDefinition = getCompositeDefinition(token.value, global);
         if (compositeDefinition != nullptr)
-            return PSC::DataType(PSC::DataType::COMPOSITE, &compositeDefinition->name);
+            return PSC::DataType(PSC::DataType::COMPOSITE, compositeDefinition);
         
         return PSC::DataType(PSC::DataType::NONE);
     }
@@ -232,12 +233,13 @@ Enum *Context::getEnumElement(const std::string &value, bool global) {
     for (auto &definition : enums) {
         for (size_t i = 0; i < definition->values.size(); i++) {
             if (definition->values[i] == value) {
-                auto ptr = new Enum(definition->name);
+                auto ptr = new Enum(*definition);
                 ptr->idx = i;
                 return ptr;
             }
         }
     }
+    if (global && typeScope != nullptr) return typeScope->getEnumElement(value);
     if (global && parent != nullptr) return getGlobalContext()->getEnumElement(value);
     return nullptr;
 }
@@ -258,6 +260,7 @@ const EnumTypeDefinition *Context::getEnumDefinition(const std::string &name, bo
     for (const auto &e : enums) {
         if (e->name == name) return e.get();
     }
+    if (global && typeScope != nullptr) return typeScope->getEnumDefinition(name);
     if (global && parent != nullptr) return getGlobalContext()->getEnumDefinition(name);
     return nullptr;
 }
@@ -266,6 +269,7 @@ const PointerTypeDefinition *Context::getPointerDefinition(const std::string &na
     for (const auto &p : pointers) {
         if (p->name == name) return p.get();
     }
+    if (global && typeScope != nullptr) return typeScope->getPointerDefinition(name);
     if (global && parent != nullptr) return getGlobalContext()->getPointerDefinition(name);
     return nullptr;
 }
@@ -274,6 +278,7 @@ const CompositeTypeDefinition *Context::getCompositeDefinition(const std::string
     for (const auto &c : composites) {
         if (c->name == name) return c.get();
     }
+    if (global && typeScope != nullptr) return typeScope->getCompositeDefinition(name);
     if (global && parent != nullptr) return getGlobalContext()->getCompositeDefinition(name);
     return nullptr;
 }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index deba644..feaeed6 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -15,6 +15,7 @@ namespace PSC {
     class Context {
     private:
         Context *parent;
+        Context *typeScope = nullptr; // Only for composites: scope of the type definition
         std::string name;
         std::vector<std::unique_ptr<Variable>> variables;
         std::vector<std::unique_ptr<Array>> arrays;
@@ -40,7 +41,7 @@ namespace PSC {
         Context(Context *parent, const std::string &name, bool isFunctionCtx, PSC::DataType returnType);
 
         // Composites
-        Context(Context *parent, const std::string &name, bool isCompositeCtx);
+        Context(Context *parent, const CompositeTypeDefinition &definition);
 
         // For copying composites
         explicit Context(const Context &other);
diff --git a/src/psc/types/datatypes.h b/src/psc/types/datatypes.h
index 97787ee..76bf72e 100644
--- a/src/psc/types/datatypes.h
+++ b/src/psc/types/datatypes.h
@@ -1,19 +1,19 @@
 #pragma once
-#include <string>
-
 namespace PSC {
+    struct AbstractTypeDefinition;
+
     struct DataType {
         enum class Type {
             NONE, INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE, ENUM, POINTER, COMPOSITE
         };
 
         using enum Type;
-        const std::string *name;
+        const AbstractTypeDefinition *definition; // identifies a user-defined type
         Type type;
 
         DataType();
 
-        DataType(Type type, const std::string *name = nullptr);
+        DataType(Type type, const AbstractTypeDefinition *definition = nullptr);
 
         bool operator==(Type other) const;
 
diff --git a/src/psc/types/type_definitions.cpp b/src/psc/types/type_definitions.cpp
index 97fa632..ade3714 100644
--- a/src/psc/types/type_definitions.cpp
+++ b/src/psc/types/type_definitions.cpp
@@ -14,5 +14,5 @@ EnumTypeDefinition::EnumTypeDefinition(const std::string &name, std::vector<std:
 PointerTypeDefinition::PointerTypeDefinition(const std::string &name, DataType type)
     : AbstractTypeDefinition(name), type(type) {}
 
-CompositeTypeDefinition::CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock)
-    : AbstractTypeDefinition(name), initBlock(initBlock) {}
+CompositeTypeDefinition::CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock, PSC::Context &scope)
+    : AbstractTypeDefinition(name), initBlock(initBlock), scope(scope) {}
diff --git a/src/psc/types/type_definitions.h b/src/psc/types/type_definitions.h
index f203e43..e5d0bad 100644
--- a/src/psc/types/type_definitions.h
+++ b/src/psc/types/type_definitions.h
@@ -6,6 +6,7 @@
 
 namespace PSC {
     class Block;
+    class Context;
 
     struct AbstractTypeDefinition {
         const std::string name;
@@ -27,7 +28,8 @@ namespace PSC {
 
     struct CompositeTypeDefinition : AbstractTypeDefinition {
         PSC::Block &initBlock;
+        PSC::Context &scope; // Where the types of the fields are looked up
 
-        CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock);
+        CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock, PSC::Context &scope);
     };
 }
diff --git a/src/psc/types/type_names.cpp b/src/psc/types/type_names.cpp
index b58550e..5488f4f 100644
--- a/src/psc/types/type_names.cpp
+++ b/src/psc/types/type_names.cpp
@@ -27,15 +27,15 @@ std::ostream &PSC::operator<<(std::ostream &os, PSC::DataType &type) {
             break;
         case PSC::DataType::ENUM:
             os << "Enum";
-            if (type.name != nullptr) os << "(" << *type.name << ")";
+            if (type.definition != nullptr) os << "(" << type.definition->name << ")";
             break;
         case PSC::DataType::POINTER:
             os << "Pointer";
-            if (type.name != nullptr) os << "(" << *type.name << ")";
+            if (type.definition != nullptr) os << "(" << type.definition->name << ")";
             break;
         case PSC::DataType::COMPOSITE:
             os << "Composite";
-            if (type.name != nullptr) os << "(" << *type.name << ")";
+            if (type.definition != nullptr) os << "(" << type.definition->name << ")";
             break;
     }
     return os;
diff --git a/src/psc/types/types.cpp b/src/psc/types/types.cpp
index 0d831f0..ebc4677 100644
--- a/src/psc/types/types.cpp
+++ b/src/psc/types/types.cpp
@@ -4,16 +4,15 @@
 
 using namespace PSC;
 
-DataType::DataType() : type(PSC::DataType::NONE) {}
+DataType::DataType() : definition(nullptr), type(PSC::DataType::NONE) {}
 
-DataType::DataType(Type type, const std::string *name)
-    : name(name), type(type) {}
+DataType::DataType(Type type, const AbstractTypeDefinition *definition)
+    : definition(definition), type(type) {}
 
 bool DataType::operator==(Type other) const {
     return type == other;
 }
 
 bool DataType::operator==(const DataType &other) const {
-    if (name == nullptr || other.name == nullptr) return operator==(other.type);
-    return type == other.type && *name == *other.name;
+    return type == other.type && definition == other.definition;
 }
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 0221de6..fa4168c 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -271,18 +271,16 @@ namespace PSC {
 
     class Enum : public Custom {
     public:
-        const std::string definitionName;
+        const EnumTypeDefinition &definition;
         std::size_t idx = 0;
 
-        Enum(const std::string &name);
+        Enum(const EnumTypeDefinition &definition);
 
         Enum(const Enum &other) = default;
 
         void operator=(const Enum &other);
 
-        const EnumTypeDefinition &getDefinition(Context &ctx) const;
-
-        std::string getString(Context &ctx) const;
+        const std::string &getString() const;
 
         virtual void dump(std::ostream &out) const override;
 
@@ -295,9 +293,9 @@ namespace PSC {
         Context *varCtx = nullptr;
 
     public:
-        const std::string definitionName;
+        const PointerTypeDefinition &definition;
 
-        Pointer(const std::string &name);
+        Pointer(const PointerTypeDefinition &definition);
 
         Pointer(const Pointer &other);
 
@@ -309,8 +307,6 @@ namespace PSC {
 
         const Context *getCtx() const;
 
-        const PointerTypeDefinition &getDefinition(Context &ctx) const;
-    
         virtual void dump(std::ostream&) const override;
 
         virtual bool load(std::istream&, Context&) override;
@@ -318,10 +314,10 @@ namespace PSC {
 
     class Composite : public Custom {
     public:
-        const std::string definitionName;
+        const CompositeTypeDefinition &definition;
         std::unique_ptr<Context> ctx;
 
-        Composite(const std::string &name, Context &parent);
+        Composite(const CompositeTypeDefinition &definition, Context &parent);
 
         Composite(const Composite &other);
 
@@ -329,8 +325,6 @@ namespace PSC {
 
         DataHolder *getMember(const std::string &name);
 
-        const CompositeTypeDefinition &getDefinition(Context &ctx) const;
-    
         virtual void dump(std::ostream &out) const override;
 
         virtual bool load(std::istream &in, Context &ctx) override;
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 993eecb..2245e27 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -6,48 +6,42 @@
 
 using namespace PSC;
 
-Enum::Enum(const std::string &name) : definitionName(name) {}
+Enum::Enum(const EnumTypeDefinition &definition) : definition(definition) {}
 
 void Enum::operator=(const Enum &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definition != &other.definition) std::abort();
     idx = other.idx;
 }
 
-const EnumTypeDefinition &Enum::getDefinition(Context &ctx) const {
-    return *ctx.getEnumDefinition(definitionName);
-}
-
-std::string Enum::getString(Context &ctx) const {
-    const EnumTypeDefinition &definition = getDefinition(ctx);
+const std::string &Enum::getString() const {
     return definition.values[idx];
 }
 
 void Enum::dump(std::ostream &out) const {
-    out << "ENUM " << definitionName << " " << idx;
+    out << "ENUM " << definition.name << " " << idx;
 }
 
-bool Enum::load(std::istream &in, Context &ctx) {
+bool Enum::load(std::istream &in, Context&) {
     std::string s;
     in >> s;
     if (s != "ENUM") return false;
 
     in >> s;
-    const EnumTypeDefinition *def = ctx.getEnumDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definition.name) return false;
 
     size_t idx1;
     in >> idx1;
-    if (in.fail() || idx1 >= def->values.size()) return false;
+    if (in.fail() || idx1 >= definition.values.size()) return false;
 
     idx = idx1;
     return true;
 }
 
-Pointer::Pointer(const std::string &name)
-    : definitionName(name) {}
+Pointer::Pointer(const PointerTypeDefinition &definition)
+    : definition(definition) {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definitionName(other.definitionName)
+    : ptr(other.ptr), varCtx(other.varCtx), definition(other.definition)
 {}
 
 void Pointer::setValue(Variable *value) {
@@ -59,7 +53,7 @@ void Pointer::setValue(Variable *value) {
 }
 
 void Pointer::operator=(const Pointer &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definition != &other.definition) std::abort();
     ptr = other.ptr;
     varCtx = other.varCtx;
 }
@@ -72,10 +66,6 @@ const Context *Pointer::getCtx() const {
     return varCtx;
 }
 
-const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-    return *ctx.getPointerDefinition(definitionName);
-}
-
 void Pointer::dump(std::ostream&) const {}
 
 bool Pointer::load(std::istream&, Context&) {
@@ -83,20 +73,20 @@ bool Pointer::load(std::istream&, Context&) {
 }
 
 
-Composite::Composite(const std::string &name, Context &parent)
-    : definitionName(name),
-    ctx(std::make_unique<Context>(&parent, definitionName, true))
+Composite::Composite(const CompositeTypeDefinition &definition, Context &parent)
+    : definition(definition),
+    ctx(std::make_unique<Context>(&parent, definition))
 {
-    getDefinition(*ctx).initBlock.run(*ctx);
+    definition.initBlock.run(*ctx);
 }
 
 Composite::Composite(const Composite &other)
-    : definitionName(other.definitionName),
+    : definition(other.definition),
     ctx(std::make_unique<Context>(*other.ctx))
 {}
 
 void Composite::operator=(const Composite &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definition != &other.definition) std::abort();
     ctx->copyVariableData(*other.ctx);
 }
 
@@ -108,12 +98,8 @@ DataHolder *Composite::getMember(const std::string &name) {
     return arr;
 }
 
-const CompositeTypeDefinition &Composite::getDefinition(PSC::Context &ctx) const {
-    return *ctx.getCompositeDefinition(definitionName);
-}
-
 void Composite::dump(std::ostream &out) const {
-    out << "COMPOSITE " << definitionName << " ";
+    out << "COMPOSITE " << definition.name << " ";
 
     const auto &vars = ctx->getVariables();
     for (size_t i = 0; i < vars.size(); i++) {
@@ -135,8 +121,7 @@ bool Composite::load(std::istream &in, Context &ctx) {
     if (s != "COMPOSITE") return false;
 
     in >> s;
-    const CompositeTypeDefinition *def = ctx.getCompositeDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definition.name) return false;
 
     for (const auto &var : this->ctx->getVariables()) {
         if (!var->load(in, ctx)) return false;
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index 1619079..ec7f4a3 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -37,13 +37,13 @@ Variable::Variable(const std::string &name, DataType type, bool isConstant, Cont
             data = new PSC::Date();
             break;
         case DataType::ENUM:
-            data = new PSC::Enum(*type.name);
+            data = new PSC::Enum(*static_cast<const EnumTypeDefinition*>(type.definition));
             break;
         case DataType::POINTER:
-            data = new PSC::Pointer(*type.name);
+            data = new PSC::Pointer(*static_cast<const PointerTypeDefinition*>(type.definition));
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*type.name, *ctx);
+            data = new PSC::Composite(*static_cast<const CompositeTypeDefinition*>(type.definition), *ctx);
             break;
         case DataType::NONE:
             std::abort();
-- 
2.43.0


From 75e13d68a6a1137040e9fb9b44b13cd0c3d86e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 09/49] fix: enum arithmetic with a negative intermediate
 result used an unsigned modulus and gave the wrong element

---
 src/nodes/eval/arithmetic.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 3204eda..12d6084 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -161,13 +161,17 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
         const PSC::Enum &enumVal = leftRes->get<PSC::Enum>();
         const PSC::Integer &integer = rightRes->get<PSC::Integer>();
 
+        const PSC::EnumTypeDefinition &definition = enumVal.definition;
+        const PSC::int_t enumSize = definition.values.size();
+        const PSC::int_t offset = integer.value % enumSize; // reduced first so that the sum cannot overflow
+
         PSC::int_t left, right;
         if (enumSwap) {
-            left = integer.value;
+            left = offset;
             right = enumVal.idx;
         } else {
             left = enumVal.idx;
-            right = integer.value;
+            right = offset;
         }
 
         PSC::int_t res;
@@ -177,8 +181,6 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
             res = left - right;
         }
 
-        const PSC::EnumTypeDefinition &definition = enumVal.definition;
-        std::size_t enumSize = definition.values.size();
         res %= enumSize;
         if (res < 0) res += enumSize;
 
-- 
2.43.0


From a8e14ff23504fede5a6ce5208761e453a58c03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 10/49] fix: records with array fields were copied shallowly
 and copies moved storage under references and pointers

---
 src/nodes/io/file.cpp           |  4 +--
 src/nodes/variable/variable.cpp | 51 ++++++++++++++++++++------------
 src/nodes/variable/variable.h   |  6 ++--
 src/psc/array.cpp               | 27 +++++++++--------
 src/psc/array.h                 |  7 +++--
 src/psc/scope/context.cpp       | 11 ++++---
 src/psc/scope/context.h         |  2 +-
 src/psc/types/types.h           |  5 ++++
 src/psc/types/userType.cpp      | 24 +++++++++++++--
 src/psc/variable.cpp            | 52 +++++++++++++++++++++++++++------
 src/psc/variable.h              |  9 +++++-
 11 files changed, 141 insertions(+), 57 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index cb67719..5b44a5d 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -49,9 +49,7 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
     
-    PSC::String *data = new PSC::String;
-    *data = file->read();
-    var->set(data);
+    var->get<PSC::String>() = file->read();
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index ed42859..82def2f 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -48,31 +48,32 @@ AssignNode::AssignNode(const Token &token, Node &node, std::unique_ptr<AbstractV
     : UnaryNode(token, node), resolver(std::move(resolver))
 {}
 
-void AssignNode::assignArray(PSC::Context &ctx, const PSC::ArrayDirectAccessError &e) {
-    AccessNode *accsNode = dynamic_cast<AccessNode*>(&node);
-    if (accsNode == nullptr) throw e;
-    auto array = static_cast<PSC::Array*>(&accsNode->resolver->resolve(ctx));
-    
+void AssignNode::assignArray(PSC::Context &ctx, const PSC::Array &source) {
     PSC::DataHolder &holder = resolver->resolve(ctx);
-    if (!holder.isArray()) throw e;
-    
+    if (!holder.isArray())
+        throw PSC::ArrayDirectAccessError(node.getToken(), ctx);
+
     PSC::Array *arr = static_cast<PSC::Array*>(&holder);
-    if (arr->type != array->type)
+    if (arr->type != source.type)
         throw PSC::RuntimeError(token, ctx, "Cannot assign arrays of different data type");
-    if (arr->dimensions != array->dimensions)
+    if (!arr->isAssignable(source))
         throw PSC::RuntimeError(token, ctx, "Cannot assign arrays of different dimensions");
 
-    arr->copyData(*array);
+    arr->copyData(source);
 }
 
 std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
     std::unique_ptr<NodeResult> valueRes;
-    try {
+    AccessNode *accsNode = dynamic_cast<AccessNode*>(&node);
+    if (accsNode != nullptr) {
+        const PSC::Array *array = nullptr;
+        valueRes = accsNode->evaluate(ctx, array);
+        if (array != nullptr) {
+            assignArray(ctx, *array);
+            return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
+        }
+    } else {
         valueRes = node.evaluate(ctx);
-    } catch (PSC::ArrayDirectAccessError &e) {
-        if (&e.context != &ctx) throw e;
-        assignArray(ctx, e);
-        return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
     }
     if (valueRes->type == PSC::DataType::NONE)
         throw PSC::InvalidUsageError(token, ctx, "assignment operator: expression has no value");
@@ -92,7 +93,7 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         if (pedantic)
             throw PSC::PedanticError(token, "Assigning to undeclared variable");
         
-        var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx);
+        var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx, valueRes->data.get());
         ctx.addVariable(var);
     }
 
@@ -129,6 +130,8 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
             var->get<PSC::Pointer>() = valueRes->get<PSC::Pointer>();
             break;
         case PSC::DataType::COMPOSITE:
+            if (!var->get<PSC::Composite>().isAssignable(valueRes->get<PSC::Composite>()))
+                throw PSC::RuntimeError(token, ctx, "Cannot assign records with array fields of different dimensions");
             var->get<PSC::Composite>() = valueRes->get<PSC::Composite>();
             break;
         case PSC::DataType::NONE:
@@ -143,6 +146,14 @@ AccessNode::AccessNode(const Token &token, std::unique_ptr<AbstractVariableResol
     : Node(token), resolver(std::move(resolver)) {}
 
 std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
+    const PSC::Array *array = nullptr;
+    auto result = evaluate(ctx, array);
+    if (array != nullptr)
+        throw PSC::ArrayDirectAccessError(token, ctx);
+    return result;
+}
+
+std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx, const PSC::Array *&array) {
     PSC::DataHolder *holder;
     try {
         holder = &resolver->resolve(ctx);
@@ -153,9 +164,11 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
         throw e;
     }
 
-    if (holder->isArray())
-        throw PSC::ArrayDirectAccessError(token, ctx);
-    
+    if (holder->isArray()) {
+        array = static_cast<const PSC::Array*>(holder);
+        return nullptr;
+    }
+
     PSC::Variable &var = *static_cast<PSC::Variable*>(holder);
 
     PSC::Value *data = nullptr;
diff --git a/src/nodes/variable/variable.h b/src/nodes/variable/variable.h
index e1104c7..355e04f 100644
--- a/src/nodes/variable/variable.h
+++ b/src/nodes/variable/variable.h
@@ -30,7 +30,7 @@ class AssignNode : public UnaryNode {
 private:
     std::unique_ptr<AbstractVariableResolver> resolver;
 
-    void assignArray(PSC::Context &ctx, const PSC::ArrayDirectAccessError &e);
+    void assignArray(PSC::Context &ctx, const PSC::Array &source);
 
 public:
     // token: ASSIGNMENT
@@ -42,7 +42,6 @@ public:
 class AccessNode : public Node {
 private:
     std::unique_ptr<AbstractVariableResolver> resolver;
-    friend AssignNode;
 
 public:
     // token: IDENTIFIER
@@ -50,6 +49,9 @@ public:
 
     std::unique_ptr<NodeResult> evaluate(PSC::Context &ctx) override;
 
+    // Sets 'array' and returns nullptr if the identifier refers to a whole array
+    std::unique_ptr<NodeResult> evaluate(PSC::Context &ctx, const PSC::Array *&array);
+
     // For BYREF
     AbstractVariableResolver &getResolver() const;
 };
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 2cf834b..77d4cdb 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -26,26 +26,29 @@ Array::Array(const std::string &name, DataType type, const std::vector<ArrayDime
     : DataHolder(name), type(type), dimensions(dimensions)
 {}
 
-Array::Array(const Array &other)
+Array::Array(const Array &other, Context *ctx)
     : DataHolder(other.name),
     type(other.type),
-    dimensions(Array::copyDimensions(other.dimensions))
-{}
+    dimensions(other.dimensions)
+{
+    data.reserve(other.data.size());
+    for (const auto &element : other.data) {
+        data.emplace_back(std::make_unique<PSC::Variable>(*element, ctx));
+    }
+}
 
-void Array::copyData(const Array &other) {
+bool Array::isAssignable(const Array &other) const {
+    if (type != other.type || dimensions != other.dimensions) return false;
     for (size_t i = 0; i < data.size(); i++) {
-        data[i] = std::make_unique<PSC::Variable>(*(other.data[i]), other.data[i]->parent);
+        if (!data[i]->isAssignable(*other.data[i])) return false;
     }
+    return true;
 }
 
-const std::vector<ArrayDimension> Array::copyDimensions(const std::vector<ArrayDimension> &source) {
-    std::vector<ArrayDimension> copy;
-    size_t size = source.size();
-    copy.reserve(size);
-    for (size_t i = 0; i < size; i++) {
-        copy.emplace_back(source[i]);
+void Array::copyData(const Array &other) {
+    for (size_t i = 0; i < data.size(); i++) {
+        data[i]->assign(*other.data[i]);
     }
-    return copy;
 }
 
 void Array::init(Context &ctx) {
diff --git a/src/psc/array.h b/src/psc/array.h
index 7e12b70..4436b26 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -26,16 +26,17 @@ namespace PSC {
     private:
         std::vector<std::unique_ptr<Variable>> data;
 
-        static const std::vector<ArrayDimension> copyDimensions(const std::vector<ArrayDimension> &source);
-
     public:
         const DataType type;
         const std::vector<ArrayDimension> dimensions;
 
         Array(const std::string &name, DataType type, const std::vector<ArrayDimension> &dimensions);
 
-        Array(const Array &other);
+        Array(const Array &other, Context *ctx);
+
+        bool isAssignable(const Array &other) const;
 
+        // Copies the elements in place
         void copyData(const Array &other);
 
         constexpr bool isArray() const override {return true;}
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 02efdec..4ddd93d 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -27,8 +27,8 @@ void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<st
     }
 }
 
-Context::Context(const Context &other)
-    : parent(other.parent),
+Context::Context(const Context &other, Context *parent)
+    : parent(parent),
     typeScope(other.typeScope),
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
@@ -36,14 +36,17 @@ Context::Context(const Context &other)
     returnType(other.returnType)
 {
     copyPtrVector(other.variables, variables, this);
-    copyPtrVector(other.arrays, arrays);
+    copyPtrVector(other.arrays, arrays, this);
     copyPtrVector(other.procedures, procedures);
     copyPtrVector(other.functions, functions);
 }
 
 void Context::copyVariableData(const Context &other) {
     for (size_t i = 0; i < variables.size(); i++) {
-        variables[i]->set(&other.variables[i]->get<Value>(), true);
+        variables[i]->assign(*other.variables[i]);
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        arrays[i]->copyData(*other.arrays[i]);
     }
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index feaeed6..4d5ab19 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -44,7 +44,7 @@ namespace PSC {
         Context(Context *parent, const CompositeTypeDefinition &definition);
 
         // For copying composites
-        explicit Context(const Context &other);
+        Context(const Context &other, Context *parent);
 
         // Only for composites
         void copyVariableData(const Context &other);
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index fa4168c..a0f5033 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -321,8 +321,13 @@ namespace PSC {
 
         Composite(const Composite &other);
 
+        Composite(const Composite &other, Context &parent);
+
         void operator=(const Composite &other);
 
+        // Array fields may have bounds which depend on variables
+        bool isAssignable(const Composite &other) const;
+
         DataHolder *getMember(const std::string &name);
 
         virtual void dump(std::ostream &out) const override;
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 2245e27..894588f 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -81,8 +81,12 @@ Composite::Composite(const CompositeTypeDefinition &definition, Context &parent)
 }
 
 Composite::Composite(const Composite &other)
+    : Composite(other, *other.ctx->getParent())
+{}
+
+Composite::Composite(const Composite &other, Context &parent)
     : definition(other.definition),
-    ctx(std::make_unique<Context>(*other.ctx))
+    ctx(std::make_unique<Context>(*other.ctx, &parent))
 {}
 
 void Composite::operator=(const Composite &other) {
@@ -90,11 +94,25 @@ void Composite::operator=(const Composite &other) {
     ctx->copyVariableData(*other.ctx);
 }
 
+bool Composite::isAssignable(const Composite &other) const {
+    const auto &vars = ctx->getVariables(), &otherVars = other.ctx->getVariables();
+    for (size_t i = 0; i < vars.size(); i++) {
+        if (!vars[i]->isAssignable(*otherVars[i])) return false;
+    }
+
+    const auto &arrays = ctx->getArrays(), &otherArrays = other.ctx->getArrays();
+    for (size_t i = 0; i < arrays.size(); i++) {
+        if (!arrays[i]->isAssignable(*otherArrays[i])) return false;
+    }
+
+    return true;
+}
+
 DataHolder *Composite::getMember(const std::string &name) {
-    PSC::Variable *var = ctx->getVariable(name);
+    PSC::Variable *var = ctx->getVariable(name, false);
     if (var != nullptr) return var;
 
-    PSC::Array *arr = ctx->getArray(name);
+    PSC::Array *arr = ctx->getArray(name, false);
     return arr;
 }
 
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index ec7f4a3..3a18c92 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -14,7 +14,7 @@ Variable::Variable(const std::string &name, DataType type, bool isConstant, Cont
     : DataHolder(name), data(nullptr), ref(nullptr), type(type), isConstant(isConstant), parent(ctx)
 {
     if (initialData != nullptr) {
-        set(const_cast<Value*>(initialData), true);
+        set(initialData);
         return;
     }
     switch (type.type) {
@@ -58,13 +58,7 @@ Variable::~Variable() {
     if (ref == nullptr) delete data;
 }
 
-void Variable::set(Value *_data, bool copy) {
-    if (data != nullptr) delete data;
-    if (!copy) {
-        data = _data;
-        return;
-    }
-
+void Variable::set(const Value *_data) {
     switch (type.type) {
         case DataType::INTEGER:
             data = new PSC::Integer(*((const PSC::Integer*) _data));
@@ -91,13 +85,53 @@ void Variable::set(Value *_data, bool copy) {
             data = new PSC::Pointer(*((const PSC::Pointer*) _data));
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*((const PSC::Composite*) _data));
+            data = new PSC::Composite(*((const PSC::Composite*) _data), *parent);
             break;
         case DataType::NONE:
             std::abort();
     }
 }
 
+void Variable::assign(const Variable &other) {
+    switch (type.type) {
+        case DataType::INTEGER:
+            *((PSC::Integer*) data) = *((const PSC::Integer*) other.data);
+            break;
+        case DataType::REAL:
+            *((PSC::Real*) data) = *((const PSC::Real*) other.data);
+            break;
+        case DataType::BOOLEAN:
+            *((PSC::Boolean*) data) = *((const PSC::Boolean*) other.data);
+            break;
+        case DataType::CHAR:
+            *((PSC::Char*) data) = *((const PSC::Char*) other.data);
+            break;
+        case DataType::STRING:
+            *((PSC::String*) data) = *((const PSC::String*) other.data);
+            break;
+        case DataType::DATE:
+            *((PSC::Date*) data) = *((const PSC::Date*) other.data);
+            break;
+        case DataType::ENUM:
+            *((PSC::Enum*) data) = *((const PSC::Enum*) other.data);
+            break;
+        case DataType::POINTER:
+            *((PSC::Pointer*) data) = *((const PSC::Pointer*) other.data);
+            break;
+        case DataType::COMPOSITE:
+            *((PSC::Composite*) data) = *((const PSC::Composite*) other.data);
+            break;
+        case DataType::NONE:
+            std::abort();
+    }
+}
+
+bool Variable::isAssignable(const Variable &other) const {
+    if (type != other.type) return false;
+    if (type != DataType::COMPOSITE) return true;
+    return ((const PSC::Composite*) data)->isAssignable(*((const PSC::Composite*) other.data));
+}
+
 Variable *Variable::createReference(const std::string &refName) {
     Variable *v = ref == nullptr ? this : ref;
     return new Variable(refName, v);
diff --git a/src/psc/variable.h b/src/psc/variable.h
index 7ce64d8..ebfe787 100644
--- a/src/psc/variable.h
+++ b/src/psc/variable.h
@@ -41,7 +41,14 @@ namespace PSC {
 
         constexpr bool isArray() const override {return false;}
 
-        void set(Value *_data, bool copy = false);
+        // Allocates a copy of the value
+        void set(const Value *_data);
+
+        // Copies the value of a variable of the same type in place, so that
+        // references and pointers to this variable stay valid
+        void assign(const Variable &other);
+
+        bool isAssignable(const Variable &other) const;
 
         template<std::derived_from<Value> T>
         T &get() { return *((T*) data); }
-- 
2.43.0


From dad556ce179be3209ab8d07959a6afa465a207c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 11/49] fix: BYREF arguments were evaluated twice, which
 crashed tracebacks and repeated side effects

---
 src/nodes/functions/function.cpp  | 71 +++++++++++--------------------
 src/nodes/functions/procedure.cpp | 69 +++++++++++-------------------
 src/psc/error.cpp                 |  4 +-
 3 files changed, 51 insertions(+), 93 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 15ed111..7a6c738 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -65,9 +65,26 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    // Arguments are evaluated exactly once: variables passed by reference are
+    // resolved here instead of being read
+    std::vector<PSC::Variable*> references(args.size(), nullptr);
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
-        argTypes.push_back(argResults[i]->type);
+        AccessNode *accsNode = nullptr;
+        if (i < function->parameters.size() && function->parameters[i].byRef)
+            accsNode = dynamic_cast<AccessNode*>(args[i]);
+
+        if (accsNode != nullptr) {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            references[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(references[i]->type);
+        } else {
+            argResults.push_back(args[i]->evaluate(ctx));
+            argTypes.push_back(argResults[i]->type);
+        }
     }
 
     size_t nArgs = function->parameters.size();
@@ -75,69 +92,29 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
         throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
 
     auto functionCtx = std::make_unique<PSC::Context>(&ctx, functionName, true, function->returnType);
-    ctx.switchToken = &token;
 
     for (size_t i = 0; i < args.size(); i++) {
         auto &argRes = argResults[i];
         const PSC::Parameter &parameter = function->parameters[i];
 
         if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type) {
+        if (parameter.type != (references[i] != nullptr ? references[i]->type : argRes->type))
             throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
-        }
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode) {
+            if (references[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables can be used as arguements when passing by reference");
-            }
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = references[i]->createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get());
-
-            switch (var->type.type) {
-                case PSC::DataType::INTEGER:
-                    var->get<PSC::Integer>() = argRes->get<PSC::Integer>();
-                    break;
-                case PSC::DataType::REAL:
-                    var->get<PSC::Real>() = argRes->get<PSC::Real>();
-                    break;
-                case PSC::DataType::BOOLEAN:
-                    var->get<PSC::Boolean>() = argRes->get<PSC::Boolean>();
-                    break;
-                case PSC::DataType::CHAR:
-                    var->get<PSC::Char>() = argRes->get<PSC::Char>();
-                    break;
-                case PSC::DataType::STRING:
-                    var->get<PSC::String>() = argRes->get<PSC::String>();
-                    break;
-                case PSC::DataType::DATE:
-                    var->get<PSC::Date>() = argRes->get<PSC::Date>();
-                    break;
-                case PSC::DataType::ENUM:
-                    var->get<PSC::Enum>() = argRes->get<PSC::Enum>();
-                    break;
-                case PSC::DataType::POINTER:
-                    var->get<PSC::Pointer>() = argRes->get<PSC::Pointer>();
-                    break;
-                case PSC::DataType::COMPOSITE:
-                    var->get<PSC::Composite>() = argRes->get<PSC::Composite>();
-                    break;
-                case PSC::DataType::NONE:
-                    std::abort();
-            }
+            var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get(), argRes->data.get());
         }
 
         functionCtx->addVariable(var);
     }
 
+    ctx.switchToken = &token;
     try {
         function->run(*functionCtx);
     } catch (ReturnErrSignal&) {}
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index e84dc65..03df20a 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -59,9 +59,26 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    // Arguments are evaluated exactly once: variables passed by reference are
+    // resolved here instead of being read
+    std::vector<PSC::Variable*> references(args.size(), nullptr);
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
-        argTypes.push_back(argResults[i]->type);
+        AccessNode *accsNode = nullptr;
+        if (i < procedure->parameters.size() && procedure->parameters[i].byRef)
+            accsNode = dynamic_cast<AccessNode*>(args[i]);
+
+        if (accsNode != nullptr) {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            references[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(references[i]->type);
+        } else {
+            argResults.push_back(args[i]->evaluate(ctx));
+            argTypes.push_back(argResults[i]->type);
+        }
     }
 
     size_t nArgs = procedure->parameters.size();
@@ -69,67 +86,29 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
         throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
     auto procedureCtx = std::make_unique<PSC::Context>(&ctx, procedureName);
-    ctx.switchToken = &token;
 
     for (size_t i = 0; i < args.size(); i++) {
         auto &argRes = argResults[i];
         const PSC::Parameter &parameter = procedure->parameters[i];
 
         if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type)
+        if (parameter.type != (references[i] != nullptr ? references[i]->type : argRes->type))
             throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode)
+            if (references[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables and array elements can be used as arguements when passing by reference");
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = references[i]->createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());
-
-            switch (var->type.type) {
-                case PSC::DataType::INTEGER:
-                    var->get<PSC::Integer>() = argRes->get<PSC::Integer>();
-                    break;
-                case PSC::DataType::REAL:
-                    var->get<PSC::Real>() = argRes->get<PSC::Real>();
-                    break;
-                case PSC::DataType::BOOLEAN:
-                    var->get<PSC::Boolean>() = argRes->get<PSC::Boolean>();
-                    break;
-                case PSC::DataType::CHAR:
-                    var->get<PSC::Char>() = argRes->get<PSC::Char>();
-                    break;
-                case PSC::DataType::STRING:
-                    var->get<PSC::String>() = argRes->get<PSC::String>();
-                    break;
-                case PSC::DataType::DATE:
-                    var->get<PSC::Date>() = argRes->get<PSC::Date>();
-                    break;
-                case PSC::DataType::ENUM:
-                    var->get<PSC::Enum>() = argRes->get<PSC::Enum>();
-                    break;
-                case PSC::DataType::POINTER:
-                    var->get<PSC::Pointer>() = argRes->get<PSC::Pointer>();
-                    break;
-                case PSC::DataType::COMPOSITE:
-                    var->get<PSC::Composite>() = argRes->get<PSC::Composite>();
-                    break;
-                case PSC::DataType::NONE:
-                    std::abort();
-            }
+            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get(), argRes->data.get());
         }
 
         procedureCtx->addVariable(var);
     }
 
+    ctx.switchToken = &token;
     procedure->run(*procedureCtx);
     ctx.switchToken = nullptr;
 
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index acdb67d..8806b40 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -74,7 +74,9 @@ RuntimeError::RuntimeError(const Token &token, const Context &context, const std
 
     const Context *ctx = context.getParent();
     while (ctx != nullptr) {
-        os << "\n" << ctx->getName() << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
+        os << "\n" << ctx->getName();
+        if (ctx->switchToken != nullptr)
+            os << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
         Context *parent = ctx->getParent();
         ctx = parent;
     }
-- 
2.43.0


From f558a035472dddac9968d5c5451889343d0a972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 12/49] fix: record types containing themselves recursed until
 the stack overflowed; errors in record declarations crashed

---
 src/nodes/variable/array.cpp    |  4 ++++
 src/nodes/variable/variable.cpp |  4 ++++
 src/psc/scope/context.cpp       | 10 +++++++++-
 src/psc/scope/context.h         |  4 ++++
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 8a6cce5..bb8684c 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -43,9 +43,13 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType.type == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (ctx.isInside(dataType))
+            throw PSC::RuntimeError(token, ctx, "Record type '" + type.value + "' cannot contain itself");
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
+        ctx.switchToken = &token; // records run the declarations of their fields
         array->init(ctx);
+        ctx.switchToken = nullptr;
         ctx.addArray(std::move(array));
     }
 
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 82def2f..8de57b5 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -20,8 +20,12 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (ctx.isInside(dataType))
+            throw PSC::RuntimeError(token, ctx, "Record type '" + type.value + "' cannot contain itself");
 
+        ctx.switchToken = &token; // records run the declarations of their fields
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
+        ctx.switchToken = nullptr;
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 4ddd93d..e5e1dd9 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -15,7 +15,7 @@ Context::Context(Context *parent, const std::string &name, bool isFunctionCtx, P
 {}
 
 Context::Context(Context *parent, const CompositeTypeDefinition &definition)
-    : parent(parent), typeScope(&definition.scope), name(definition.name), isFunctionCtx(false), isCompositeCtx(true), returnType(PSC::DataType::NONE)
+    : parent(parent), definition(&definition), typeScope(&definition.scope), name(definition.name), isFunctionCtx(false), isCompositeCtx(true), returnType(PSC::DataType::NONE)
 {}
 
 template<typename T, typename... Args>
@@ -29,6 +29,7 @@ void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<st
 
 Context::Context(const Context &other, Context *parent)
     : parent(parent),
+    definition(other.definition),
     typeScope(other.typeScope),
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
@@ -111,6 +112,13 @@ std::unique_ptr<Context> Context::createGlobalContext() {
     return ctx;
 }
 
+bool Context::isInside(const DataType &type) const {
+    for (const Context *ctx = this; ctx != nullptr && ctx->isCompositeCtx; ctx = ctx->parent) {
+        if (ctx->definition == type.definition) return true;
+    }
+    return false;
+}
+
 Context *Context::getParent() const {
     return parent;
 }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 4d5ab19..d5986ce 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -15,6 +15,7 @@ namespace PSC {
     class Context {
     private:
         Context *parent;
+        const CompositeTypeDefinition *definition = nullptr; // Only for composites
         Context *typeScope = nullptr; // Only for composites: scope of the type definition
         std::string name;
         std::vector<std::unique_ptr<Variable>> variables;
@@ -53,6 +54,9 @@ namespace PSC {
 
         static std::unique_ptr<Context> createGlobalContext();
 
+        // Whether this is (a record nested in) a record of the given type
+        bool isInside(const DataType &type) const;
+
         Context *getParent() const;
 
         Context *getGlobalContext();
-- 
2.43.0


From 9d9f63961e9c4d9d8a69137803acce2d421ed0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 13/49] fix: array sizes overflowed or raised an uncaught
 exception for huge bounds

---
 src/nodes/variable/array.cpp |  3 ++-
 src/psc/array.cpp            | 24 +++++++++++++++---------
 src/psc/array.h              |  6 +++---
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index bb8684c..874921d 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -48,7 +48,8 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
         ctx.switchToken = &token; // records run the declarations of their fields
-        array->init(ctx);
+        if (!array->init(ctx))
+            throw PSC::RuntimeError(token, ctx, "Array '" + identifier->value + "' is too large");
         ctx.switchToken = nullptr;
         ctx.addArray(std::move(array));
     }
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 77d4cdb..d47959b 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -1,4 +1,5 @@
 #include "pch.h"
+#include <new>
 
 #include "psc/types/types.h"
 #include "psc/array.h"
@@ -9,8 +10,8 @@ ArrayDimension::ArrayDimension(int n, int_t lowerBound, int_t upperBound)
     : n(n), lowerBound(lowerBound), upperBound(upperBound)
 {}
 
-int_t ArrayDimension::getSize() const {
-    return (upperBound - lowerBound) + 1;
+unsigned long ArrayDimension::getSize() const {
+    return ((unsigned long) upperBound - (unsigned long) lowerBound) + 1;
 }
 
 bool ArrayDimension::isValidIndex(int_t idx) const {
@@ -51,18 +52,23 @@ void Array::copyData(const Array &other) {
     }
 }
 
-void Array::init(Context &ctx) {
+bool Array::init(Context &ctx) {
     unsigned long size = 1;
     for (auto &dim : dimensions) {
-        size *= dim.getSize();
+        unsigned long dimSize = dim.getSize();
+        if (dimSize == 0 || dimSize > data.max_size() / size) return false;
+        size *= dimSize;
     }
 
-    data.reserve(size);
-
-    size_t capacity = data.capacity();
-    for (size_t i = 0; i < capacity; i++) {
-        data.emplace_back(new Variable(name, type, false, &ctx));
+    try {
+        data.reserve(size);
+        for (size_t i = 0; i < size; i++) {
+            data.emplace_back(std::make_unique<Variable>(name, type, false, &ctx));
+        }
+    } catch (const std::bad_alloc&) {
+        return false;
     }
+    return true;
 }
 
 Variable &Array::getElement(const std::vector<int_t> &index) {
diff --git a/src/psc/array.h b/src/psc/array.h
index 4436b26..e6824a5 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -15,7 +15,7 @@ namespace PSC {
 
         ArrayDimension(const ArrayDimension &other) = default;
 
-        int_t getSize() const;
+        unsigned long getSize() const;
 
         bool isValidIndex(int_t idx) const;
     };
@@ -41,8 +41,8 @@ namespace PSC {
 
         constexpr bool isArray() const override {return true;}
 
-        // Allocates memory for elements
-        void init(Context &ctx);
+        // Allocates memory for elements, fails if there are too many
+        bool init(Context &ctx);
 
         Variable &getElement(const std::vector<int_t> &index);
 
-- 
2.43.0


From c4a4d203771e7e4166249a15574996fb90d3446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 14/49] fix: a name already resolved to a global hid a local
 declared later in the same activation

---
 src/psc/scope/context.cpp | 7 +++++++
 src/psc/scope/context.h   | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index e5e1dd9..5de0270 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -52,9 +52,14 @@ void Context::copyVariableData(const Context &other) {
 }
 
 Context::~Context() {
+    clearCache();
+}
+
+void Context::clearCache() {
     for (ResolverCache *c : cache) {
         c->clear();
     }
+    cache.clear();
 }
 
 std::unique_ptr<Context> Context::createGlobalContext() {
@@ -135,6 +140,7 @@ const std::string &Context::getName() const {
 
 void Context::addVariable(Variable *variable) {
     variables.emplace_back(variable);
+    clearCache(); // the name may already have been resolved to a global
 }
 
 Variable *Context::getVariable(const std::string &varName, bool global) {
@@ -188,6 +194,7 @@ Function *Context::getFunction(const std::string &functionName) {
 
 void Context::addArray(std::unique_ptr<Array> &&array) {
     arrays.emplace_back(std::move(array));
+    clearCache();
 }
 
 Array *Context::getArray(const std::string &arrayName, bool global) {
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index d5986ce..6498996 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -29,6 +29,8 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        void clearCache();
+
     public:
         const Token *switchToken = nullptr;
 
-- 
2.43.0


From 819ab5c9a1933bc2fbc5549cc8da6ad0abef3d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 15/49] fix: declaring a variable with the name of an array (or
 the reverse) was accepted and hid the existing one

---
 src/nodes/io/file.cpp           |  2 ++
 src/nodes/loop/for.cpp          |  2 ++
 src/nodes/variable/array.cpp    | 10 +++++++---
 src/nodes/variable/variable.cpp |  4 ++--
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 5b44a5d..f372086 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -36,6 +36,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
 
     PSC::Variable *var = ctx.getVariable(identifier.value);
     if (var == nullptr) {
+        if (ctx.getArray(identifier.value) != nullptr)
+            throw PSC::ArrayDirectAccessError(token, ctx);
         var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
         ctx.addVariable(var);
     }
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 9cbc72f..31e4ac4 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -16,6 +16,8 @@ ForLoopNode::ForLoopNode(const Token &token, const Token &identifier, Node &star
 std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
     PSC::Variable *iterator = ctx.getVariable(identifier.value);
     if (iterator == nullptr) {
+        if (ctx.getArray(identifier.value) != nullptr)
+            throw PSC::ArrayDirectAccessError(token, ctx);
         iterator = new PSC::Variable(identifier.value, PSC::DataType::INTEGER, false, &ctx);
         ctx.addVariable(iterator);
     }
diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 874921d..5501efa 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -14,9 +14,13 @@ ArrayDeclareNode::ArrayDeclareNode(const Token &token, std::vector<const Token*>
 std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
     if (bounds.size() % 2 != 0 || bounds.size() == 0) std::abort();
 
-    for (auto identifier : identifiers) {
-        if (ctx.getArray(identifier->value, false) != nullptr)
-            throw PSC::RedeclarationError(token, ctx, identifier->value);
+    for (size_t i = 0; i < identifiers.size(); i++) {
+        const std::string &name = identifiers[i]->value;
+        bool duplicate = std::any_of(identifiers.begin(), identifiers.begin() + i, [&name](const Token *other) {
+            return other->value == name;
+        });
+        if (duplicate || ctx.getArray(name, false) != nullptr || ctx.getVariable(name, false) != nullptr)
+            throw PSC::RedeclarationError(token, ctx, name);
     }
 
     std::vector<PSC::ArrayDimension> dimensions;
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 8de57b5..0db495a 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -11,7 +11,7 @@ DeclareNode::DeclareNode(const Token &token, std::vector<const Token*> &&identif
 
 std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
     for (auto identifier : identifiers) {
-        if (ctx.getVariable(identifier->value, false) != nullptr)
+        if (ctx.getVariable(identifier->value, false) != nullptr || ctx.getArray(identifier->value, false) != nullptr)
             throw PSC::RedeclarationError(token, ctx, identifier->value);
 
         if (ctx.isIdentifierType(*identifier))
@@ -39,7 +39,7 @@ ConstDeclareNode::ConstDeclareNode(const Token &token, Node &node, const Token &
 std::unique_ptr<NodeResult> ConstDeclareNode::evaluate(PSC::Context &ctx) {
     auto value = node.evaluate(ctx);
 
-    if (ctx.getVariable(identifier.value, false) != nullptr)
+    if (ctx.getVariable(identifier.value, false) != nullptr || ctx.getArray(identifier.value, false) != nullptr)
         throw PSC::RedeclarationError(token, ctx, identifier.value);
 
     ctx.addVariable(new PSC::Variable(identifier.value, value->type, true, &ctx, value->data.get()));
-- 
2.43.0


From 018fb44266f2d48287a99a010ba500f1ef74dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 16/49] fix: FOR, INPUT, READFILE and GETRECORD changed
 constants

---
 src/nodes/io/file.cpp  | 4 ++++
 src/nodes/io/io.cpp    | 3 +++
 src/nodes/loop/for.cpp | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index f372086..9308b0f 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -41,6 +41,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
         var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
         ctx.addVariable(var);
     }
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
     if (var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
 
@@ -183,6 +185,8 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
     if (variable != nullptr) {
+        if (variable->isConstant)
+            throw PSC::ConstAssignError(token, ctx, variable->name);
         if (!file->getRecord(*variable, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
     } else {
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index a7b1708..99c461f 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -82,6 +82,9 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(var);
     }
 
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
+
     PSC::String inputStr;
     getLine(inputStr.value, "");
 
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 31e4ac4..a4407ea 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -22,6 +22,9 @@ std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(iterator);
     }
 
+    if (iterator->isConstant)
+        throw PSC::ConstAssignError(token, ctx, iterator->name);
+
     if (iterator->type != PSC::DataType::INTEGER)
         throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
 
-- 
2.43.0


From fb3991c74fd9e1ffd3e010101ae7daeaa189057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 17/49] fix: a pointer into a finished activation became valid
 again when its context's address was reused

---
 src/nodes/variable/resolver.cpp |  9 ++-------
 src/psc/scope/block.cpp         |  8 +-------
 src/psc/scope/context.cpp       |  2 ++
 src/psc/scope/context.h         |  5 +++++
 src/psc/types/types.h           |  5 +++--
 src/psc/types/userType.cpp      | 14 +++++++++-----
 6 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 74c8044..c9690c5 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -51,13 +51,8 @@ PSC::DataHolder &PointerDereferencer::resolve(PSC::Context &ctx) {
     }
 
     PSC::Pointer &ptr = ptrVar->get<PSC::Pointer>();
-    const PSC::Context *ptrCtx = ptr.getCtx();
-    PSC::Context *tempCtx = &ctx;
-    while (tempCtx != ptrCtx) {
-        tempCtx = tempCtx->getParent();
-        if (tempCtx == nullptr)
-            throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
-    }
+    if (!ptr.isValid(ctx))
+        throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
 
     PSC::Variable *ptrRefVar = ptr.getValue();
     if (ptrRefVar == nullptr)
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index 5ccd041..21ef304 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -48,13 +48,7 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
 
-            const PSC::Context *ptrCtx = resPtr.getCtx();
-            PSC::Context *tempCtx = &ctx;
-            bool valid = true;
-            while (valid && tempCtx != ptrCtx) {
-                tempCtx = tempCtx->getParent();
-                if (tempCtx == nullptr) valid = false;
-            }
+            bool valid = resPtr.isValid(ctx);
 
             std::cout << resPtr.definition.name << ": ";
             if (valid) {
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 5de0270..6c5534d 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -6,6 +6,8 @@
 
 using namespace PSC;
 
+unsigned long Context::nextId = 1;
+
 Context::Context(Context *parent, const std::string &name)
     : Context(parent, name, false, PSC::DataType::NONE)
 {}
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 6498996..24b4ad9 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -14,6 +14,8 @@ class ResolverCache;
 namespace PSC {
     class Context {
     private:
+        static unsigned long nextId;
+
         Context *parent;
         const CompositeTypeDefinition *definition = nullptr; // Only for composites
         Context *typeScope = nullptr; // Only for composites: scope of the type definition
@@ -34,6 +36,9 @@ namespace PSC {
     public:
         const Token *switchToken = nullptr;
 
+        // Unlike its address, never reused by another context
+        const unsigned long id = nextId++;
+
         const bool isFunctionCtx, isCompositeCtx;
         std::unique_ptr<NodeResult> returnValue;
         const PSC::DataType returnType;
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index a0f5033..f6d0d41 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -290,7 +290,7 @@ namespace PSC {
     class Pointer : public Custom {
     private:
         Variable *ptr = nullptr;
-        Context *varCtx = nullptr;
+        unsigned long ctxId = 0; // Context which the variable belongs to
 
     public:
         const PointerTypeDefinition &definition;
@@ -305,7 +305,8 @@ namespace PSC {
 
         Variable *getValue() const;
 
-        const Context *getCtx() const;
+        // Whether the variable still exists
+        bool isValid(const Context &ctx) const;
 
         virtual void dump(std::ostream&) const override;
 
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 894588f..001b284 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -41,29 +41,33 @@ Pointer::Pointer(const PointerTypeDefinition &definition)
     : definition(definition) {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definition(other.definition)
+    : ptr(other.ptr), ctxId(other.ctxId), definition(other.definition)
 {}
 
 void Pointer::setValue(Variable *value) {
     ptr = value;
-    varCtx = value->parent;
+    const Context *varCtx = value->parent;
     while (varCtx->isCompositeCtx) {
         varCtx = varCtx->getParent();
     }
+    ctxId = varCtx->id;
 }
 
 void Pointer::operator=(const Pointer &other) {
     if (&definition != &other.definition) std::abort();
     ptr = other.ptr;
-    varCtx = other.varCtx;
+    ctxId = other.ctxId;
 }
 
 Variable *Pointer::getValue() const {
     return ptr;
 }
 
-const Context *Pointer::getCtx() const {
-    return varCtx;
+bool Pointer::isValid(const Context &ctx) const {
+    for (const Context *c = &ctx; c != nullptr; c = c->getParent()) {
+        if (c->id == ctxId) return true;
+    }
+    return false;
 }
 
 void Pointer::dump(std::ostream&) const {}
-- 
2.43.0


From 626b8a2cb544361a09ab46559059d8bf9a2e4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 18/49] fix: BREAK and CONTINUE in a procedure acted on the
 loop that called it

---
 src/psc/procedure.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psc/procedure.cpp b/src/psc/procedure.cpp
index b5d43d4..9476801 100644
--- a/src/psc/procedure.cpp
+++ b/src/psc/procedure.cpp
@@ -1,7 +1,9 @@
 #include "pch.h"
 
+#include "psc/error.h"
 #include "psc/scope/block.h"
 #include "psc/scope/context.h"
+#include "nodes/loop/control.h"
 #include "procedure.h"
 
 using namespace PSC;
@@ -32,7 +34,13 @@ std::vector<PSC::DataType> Procedure::getTypes() const {
 }
 
 void Procedure::run(PSC::Context &ctx) {
-    block->run(ctx);
+    try {
+        block->run(ctx);
+    } catch (BreakErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'BREAK' statement");
+    } catch (ContinueErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'CONTINUE' statement");
+    }
 }
 
 Function::Function(
-- 
2.43.0


From c512d05493a785c653e2827c4c6921311051cf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 19/49] fix: CONTINUE in a REPEAT loop skipped the UNTIL
 condition

---
 src/nodes/loop/repeatUntil.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nodes/loop/repeatUntil.cpp b/src/nodes/loop/repeatUntil.cpp
index 7308ff0..ab6bbcd 100644
--- a/src/nodes/loop/repeatUntil.cpp
+++ b/src/nodes/loop/repeatUntil.cpp
@@ -14,9 +14,7 @@ std::unique_ptr<NodeResult> RepeatUntilNode::evaluate(PSC::Context &ctx) {
             block.run(ctx);
         } catch (BreakErrSignal&) {
             break;
-        } catch (ContinueErrSignal&) {
-            continue;
-        }
+        } catch (ContinueErrSignal&) {} // the condition still has to be checked
 
         auto conditionRes = node.evaluate(ctx);
         
-- 
2.43.0


From 5c924508818c69e8c0d5e71d4306c44d4036fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 20/49] fix: CASE ranges compared large integers inexactly

---
 src/nodes/selection/case.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nodes/selection/case.cpp b/src/nodes/selection/case.cpp
index 814d0dc..d9b2ccf 100644
--- a/src/nodes/selection/case.cpp
+++ b/src/nodes/selection/case.cpp
@@ -72,6 +72,12 @@ bool RangeCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
     else if (upper->type == PSC::DataType::REAL) upperVal = upper->get<PSC::Real>().value;
     else throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
 
+    // Integers are compared exactly, large ones cannot be represented as REAL
+    if (value.type == PSC::DataType::INTEGER && lower->type == PSC::DataType::INTEGER && upper->type == PSC::DataType::INTEGER) {
+        PSC::int_t x = value.get<PSC::Integer>().value;
+        return (lower->get<PSC::Integer>().value <= x) && (x <= upper->get<PSC::Integer>().value);
+    }
+
     return (lowerVal <= testValue) && (testValue <= upperVal);
 }
 
-- 
2.43.0


From 42ca728ae6d02d352edc62aee18e6bb810e00275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 21/49] fix: selecting a member or element of an enum value was
 silently ignored

---
 src/nodes/variable/variable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 0db495a..1643ba6 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -162,7 +162,10 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx, const PSC::A
     try {
         holder = &resolver->resolve(ctx);
     } catch (PSC::NotDefinedError &e) {
-        auto def = ctx.getEnumElement(token.value);
+        const SimpleVariableSource *simpleSource = dynamic_cast<const SimpleVariableSource*>(resolver.get());
+        if (simpleSource == nullptr) throw e;
+
+        auto def = ctx.getEnumElement(simpleSource->getName());
         if (def != nullptr)
             return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definition));
         throw e;
-- 
2.43.0


From f261e5b8d39c8feff170f2471cf9c3278d80f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 22/49] fix: any token was accepted as the field name after '.'

---
 src/parser/variableExprParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/variableExprParser.cpp b/src/parser/variableExprParser.cpp
index f2b330d..edbe24d 100644
--- a/src/parser/variableExprParser.cpp
+++ b/src/parser/variableExprParser.cpp
@@ -84,6 +84,9 @@ std::unique_ptr<AbstractVariableResolver> Parser::parseIdentifierExpression() {
                 const Token &token = *currentToken;
                 advance();
 
+                if (currentToken->type != TokenType::IDENTIFIER)
+                    throw PSC::ExpectedTokenError(*currentToken, "identifier");
+
                 resolver = std::make_unique<CompositeResolver>(token, std::move(resolver), *currentToken);
                 advance();
                 break;
-- 
2.43.0


From 5ab2c0fd40b7a697ed7929e12e0d7bd380cb3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 23/49] fix: READFILE on a WRITE or APPEND handle crashed, and
 a failing READFILE left a new variable behind

---
 src/nodes/io/file.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 9308b0f..c621cf7 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -34,6 +34,15 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (filenameRes->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
 
+    auto &filename = filenameRes->get<PSC::String>();
+    PSC::File *file = ctx.getFileManager().getFile(filename);
+    if (file == nullptr)
+        throw PSC::FileNotOpenError(token, ctx, filename.value);
+    if (file->getMode() == PSC::FileMode::RANDOM)
+        throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
+    if (file->getMode() != PSC::FileMode::READ)
+        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not opened for reading");
+
     PSC::Variable *var = ctx.getVariable(identifier.value);
     if (var == nullptr) {
         if (ctx.getArray(identifier.value) != nullptr)
@@ -46,13 +55,6 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
 
-    auto &filename = filenameRes->get<PSC::String>();
-    PSC::File *file = ctx.getFileManager().getFile(filename);
-    if (file == nullptr)
-        throw PSC::FileNotOpenError(token, ctx, filename.value);
-    if (file->getMode() == PSC::FileMode::RANDOM)
-        throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
-    
     var->get<PSC::String>() = file->read();
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
-- 
2.43.0


From ec2c332f8fe22d54840e730bc81129dd60b4c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 24/49] fix: INPUT of an empty line into a CHAR read before the
 start of the string

---
 src/nodes/io/io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index 99c461f..6d658ea 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -99,6 +99,8 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
             var->get<PSC::Boolean>() = (inputStr.value == "TRUE");
             break;
         case PSC::DataType::CHAR:
+            if (inputStr.value.empty())
+                throw PSC::RuntimeError(token, ctx, "Expected a character as input");
             var->get<PSC::Char>() = inputStr.value.front();
             break;
         case PSC::DataType::STRING:
-- 
2.43.0


From 0a7b985ab9232489333d82afde029076ab0b787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 25/49] fix: a string length in a random file was trusted,
 damaged data files crashed the interpreter

---
 src/psc/types/character.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index e3f4c79..e795a2e 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -124,20 +124,28 @@ bool String::load(std::istream &in, Context&) {
     in >> s;
     if (s != "STRING") return false;
 
-    in >> s;
+    size_t length;
+    in >> length;
     if (in.fail()) return false;
-    size_t length = std::stoul(s, nullptr);
-
-    char *buf = new char[length];
     in.ignore(1); // whitespace
-    in.read(buf, length);
+
+    // The length is not trusted: it must not exceed what the record holds
+    const std::streampos start = in.tellg();
+    in.seekg(0, std::ios::end);
+    const std::streampos end = in.tellg();
+    if (in.fail() || length > (size_t) (end - start)) return false;
+    in.seekg(start);
+
+    std::string buf(length, '\0');
+    in.read(buf.data(), length);
+    if (in.fail()) return false;
+
     value.clear();
     value.reserve(length);
     for (size_t i = 0; i < length; i++) {
         if (i > 0 && buf[i] == '#' && buf[i-1] == '\n') continue;
         value += buf[i];
     }
-    delete[] buf;
 
     return true;
 }
-- 
2.43.0


From 67eac305eb3721cce67a4cde32f02ad3df077ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 26/49] fix: records with several array fields were written
 without separators and could not be read back

---
 src/psc/types/userType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 001b284..d230c7a 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -133,7 +133,7 @@ void Composite::dump(std::ostream &out) const {
     if (arrays.size() > 0) out << " ";
     for (size_t i = 0; i < arrays.size(); i++) {
         arrays[i]->dump(out);
-        if (i < vars.size() - 1) out << " ";
+        if (i < arrays.size() - 1) out << " ";
     }
 }
 
-- 
2.43.0


From 6bd4e5cda59f7acd8c32b71de8cab32cff090257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 27/49] fix: reading a line break CHAR left its continuation
 mark in the record

---
 src/psc/types/character.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index e795a2e..e307adc 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -52,6 +52,7 @@ bool Char::load(std::istream &in, Context&) {
 
     in.ignore(1); // whitespace
     value = in.get();
+    if (value == '\n' && in.peek() == '#') in.ignore(1); // continuation mark
 
     return !in.fail();
 }
-- 
2.43.0


From 7635618573f8bb8ea2cfc15d918d2c665b00cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 28/49] fix: line breaks in the first record of a random file
 split it in two on reopening

---
 src/psc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index f794751..97e060d 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -27,7 +27,7 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
                     std::getline(*ifile, line);
-                    if (line.starts_with('#') && records.size() > 1) {
+                    if (line.starts_with('#') && records.size() > 0) {
                         records[records.size()-1] += '\n';
                         records[records.size()-1] += line;
                         continue;
-- 
2.43.0


From 49f4115714e0debe6559240aec11d37540438716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 29/49] fix: impossible dates were accepted from random files

---
 src/psc/types/date.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index da4421e..412d35d 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -52,11 +52,17 @@ bool Date::load(std::istream &in, Context&) {
     in >> year;
     if (in.fail()) return false;
 
-    date = std::chrono::year_month_day(
+    // A date which was never set is stored as 0 0 0
+    bool unset = day == 0 && month == 0 && year == 0;
+    if (!unset && (day > 31 || month > 12 || year < -32767 || year > 32767)) return false;
+
+    std::chrono::year_month_day loaded{
         std::chrono::year(year),
         std::chrono::month(month),
         std::chrono::day(day)
-    );
+    };
+    if (!unset && !loaded.ok()) return false;
+    date = loaded;
 
     return true;
 }
-- 
2.43.0


From 8498b11be8311e695e5a19580c36b356cdf87caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 30/49] fix: a failing GETRECORD overwrote part of its variable

---
 src/nodes/io/file.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index c621cf7..23a710f 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -189,11 +189,16 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
     if (variable != nullptr) {
         if (variable->isConstant)
             throw PSC::ConstAssignError(token, ctx, variable->name);
-        if (!file->getRecord(*variable, ctx))
+        // A record that does not fit must leave the variable as it was
+        PSC::Variable record(*variable, variable->parent);
+        if (!file->getRecord(record, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
+        variable->assign(record);
     } else {
-        if (!file->getRecord(*array, ctx))
+        PSC::Array record(*array, &ctx);
+        if (!file->getRecord(record, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
+        array->copyData(record);
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
-- 
2.43.0


From 3840e0dee2fa8776d5013f6ac1ecbd0d8dffe991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 31/49] fix: GETRECORD accepted a record with more data than
 its variable holds

---
 src/psc/file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 97e060d..95ce247 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -100,7 +100,8 @@ bool File::getRecord(DataHolder &data, Context &ctx) {
     if (ptr == records.size()) return false;
     const std::string &line = records[ptr];
     std::istringstream ss(line);
-    return data.load(ss, ctx);
+    if (!data.load(ss, ctx)) return false;
+    return (ss >> std::ws).peek() == std::istringstream::traits_type::eof(); // nothing left over
 }
 
 void File::putRecord(DataHolder &data) {
-- 
2.43.0


From cd875176b21ec4b717a1ebfd52bc23bd15618256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 32/49] fix: WRITEFILE used a dangling handle when its value
 closed the file

---
 src/nodes/io/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 23a710f..7fd8cdf 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -69,6 +69,9 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
     if (filenameRes->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
     
+    // Evaluated first, as it may call a function which closes the file
+    auto nodeRes = data.evaluate(ctx);
+
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
     if (file == nullptr)
@@ -78,7 +81,6 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
     else if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'WRITEFILE' on random file. Use 'PUTRECORD' instead.");
 
-    auto nodeRes = data.evaluate(ctx);
     std::unique_ptr<PSC::String> data;
     switch (nodeRes->type.type) {
         case PSC::DataType::INTEGER:
-- 
2.43.0


From 46a1a3cac68850b39c2120cb6d11bc94b5ff6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 33/49] fix: OPENFILE reported success for files it could not
 open, overlong names aborted

---
 src/psc/file.cpp | 20 ++++++++++++++++++--
 src/psc/file.h   |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 95ce247..344efaf 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -11,18 +11,22 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
         case FileMode::READ:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             break;
         case FileMode::WRITE:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value);
+            open = ofile->is_open();
             break;
         case FileMode::APPEND:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
+            open = ofile->is_open();
             break;
         case FileMode::RANDOM:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             std::string line;
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
@@ -47,6 +51,10 @@ File::~File() {
     if (open) close();
 }
 
+bool File::isOpen() const {
+    return open;
+}
+
 FileMode File::getMode() {
     return mode;
 }
@@ -117,7 +125,11 @@ void File::putRecord(DataHolder &data) {
 
 bool FileManager::createFile(const String &name, FileMode mode) {
     namespace fs = std::filesystem;
-    if (!fs::exists(fs::path(name.value))) {
+    const fs::path path(name.value);
+    std::error_code error;
+    if (name.value.find('\0') != std::string::npos) return false;
+    if (fs::is_directory(path, error)) return false;
+    if (!fs::exists(path, error)) {
         if (mode == FileMode::RANDOM) {
             std::ofstream f(name.value, std::ios::out);
             f.close();
@@ -126,7 +138,11 @@ bool FileManager::createFile(const String &name, FileMode mode) {
             return false;
         }
     }
-    files.emplace_back(std::make_unique<File>(name, mode));
+    if (mode == FileMode::RANDOM && !fs::is_regular_file(path, error)) return false;
+
+    auto file = std::make_unique<File>(name, mode);
+    if (!file->isOpen()) return false;
+    files.emplace_back(std::move(file));
     return true;
 }
 
diff --git a/src/psc/file.h b/src/psc/file.h
index 517bd89..2699ac2 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -29,6 +29,8 @@ namespace PSC {
 
         ~File();
 
+        bool isOpen() const;
+
         FileMode getMode();
 
         bool eof();
-- 
2.43.0


From 0adf0c2fc2d7ccbaa5f8fc4d5c1efb53aa79584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 34/49] fix: failed writes to files were silently ignored

---
 src/launch/runFile.cpp |  4 ++++
 src/nodes/io/file.cpp  |  6 ++++--
 src/psc/file.cpp       | 32 ++++++++++++++++++++++++++------
 src/psc/file.h         | 10 +++++++---
 4 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/launch/runFile.cpp b/src/launch/runFile.cpp
index ba56bd9..1e40a95 100644
--- a/src/launch/runFile.cpp
+++ b/src/launch/runFile.cpp
@@ -31,6 +31,10 @@ bool runFile() {
 
         auto globalCtx = PSC::Context::createGlobalContext();
         block->run(*globalCtx);
+
+        std::string failed;
+        if (!globalCtx->getFileManager().closeAll(failed))
+            throw PSC::RuntimeError(*tokens.back(), *globalCtx, "Failed to write to file '" + failed + "'");
     } catch (const PSC::Error &e) {
         std::cout << "\n";
         e.print();
diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 7fd8cdf..708041c 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -110,7 +110,8 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeOperationError(token, ctx, "Write");
     }
 
-    file->write(*data);
+    if (!file->write(*data))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
@@ -129,7 +130,8 @@ std::unique_ptr<NodeResult> CloseFileNode::evaluate(PSC::Context &ctx) {
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
 
-    ctx.getFileManager().closeFile(filename);
+    if (!ctx.getFileManager().closeFile(filename))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 344efaf..2658698 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -48,7 +48,8 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
 }
 
 File::~File() {
-    if (open) close();
+    if (open && !close())
+        std::cerr << "Error: Failed to write to file '" << name.value << "'" << std::endl;
 }
 
 bool File::isOpen() const {
@@ -64,7 +65,8 @@ bool File::eof() {
     return ifile->eof();
 }
 
-void File::close() {
+bool File::close() {
+    bool success = true;
     switch (mode) {
         case FileMode::READ:
             ifile->close();
@@ -72,6 +74,7 @@ void File::close() {
         case FileMode::WRITE:
         case FileMode::APPEND:
             ofile->close();
+            success = !ofile->fail();
             break;
         case FileMode::RANDOM:
             if (modified) {
@@ -81,10 +84,12 @@ void File::close() {
                     *ofile << line << "\n";
                 }
                 ofile->close();
+                success = !ofile->fail();
             }
             break;
     }
     open = false;
+    return success;
 }
 
 String File::read() {
@@ -93,8 +98,10 @@ String File::read() {
     return line;
 }
 
-void File::write(const String &data) {
+bool File::write(const String &data) {
     *ofile << data.value << "\n";
+    ofile->flush();
+    return !ofile->fail();
 }
 
 bool File::seek(const Integer &address) {
@@ -153,13 +160,26 @@ File *FileManager::getFile(const String &name) {
     return nullptr;
 }
 
-void FileManager::closeFile(const String &name) {
+bool FileManager::closeFile(const String &name) {
     for (std::size_t i = 0; i < files.size(); i++) {
         auto &file = files[i];
         if (file->name.value == name.value) {
-            file->close();
+            bool success = file->close();
             files.erase(files.begin() + i);
-            return;
+            return success;
         }
     }
+    return false;
+}
+
+bool FileManager::closeAll(std::string &failed) {
+    bool success = true;
+    for (auto &file : files) {
+        if (!file->close()) {
+            success = false;
+            failed = file->name.value;
+        }
+    }
+    files.clear();
+    return success;
 }
diff --git a/src/psc/file.h b/src/psc/file.h
index 2699ac2..430b4ec 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -35,11 +35,12 @@ namespace PSC {
 
         bool eof();
 
-        void close();
+        // Returns false if data could not be written
+        bool close();
 
         String read();
 
-        void write(const String &data);
+        bool write(const String &data);
 
         bool seek(const Integer &address);
 
@@ -57,6 +58,9 @@ namespace PSC {
 
         File *getFile(const String &name);
 
-        void closeFile(const String &name);
+        bool closeFile(const String &name);
+
+        // Stores the name of a file which could not be written in `failed`
+        bool closeAll(std::string &failed);
     };
 }
-- 
2.43.0


From 60e2d8270e3de021192a25824027db49ccc2a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 35/49] fix: EOF was FALSE until a read past the last line had
 failed, so loops read an extra empty line

---
 src/psc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 2658698..9398186 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -62,7 +62,7 @@ FileMode File::getMode() {
 
 bool File::eof() {
     if (mode != FileMode::READ) std::abort();
-    return ifile->eof();
+    return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
 bool File::close() {
-- 
2.43.0


From 1cce41bd6bedfaf866c6863cef72ce545a0a2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 36/49] fix: WRITEFILE in APPEND mode glued its line to a last
 line without line break

---
 src/psc/file.cpp | 13 +++++++++++++
 src/psc/file.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 9398186..341ee4d 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -6,6 +6,16 @@
 
 using namespace PSC;
 
+// Whether the file has a last line without a line break
+static bool endsInPartialLine(const std::string &name) {
+    std::error_code error;
+    if (!std::filesystem::is_regular_file(name, error)) return false;
+
+    std::ifstream file(name, std::ios::binary);
+    if (!file.seekg(-1, std::ios::end)) return false;
+    return file.get() != '\n';
+}
+
 File::File(const String &name, FileMode mode) : mode(mode), name(name) {
     switch (mode) {
         case FileMode::READ:
@@ -22,6 +32,7 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
             open = ofile->is_open();
+            partialLine = endsInPartialLine(name.value);
             break;
         case FileMode::RANDOM:
             ifile = std::make_unique<std::ifstream>();
@@ -99,6 +110,8 @@ String File::read() {
 }
 
 bool File::write(const String &data) {
+    if (partialLine) *ofile << "\n";
+    partialLine = false;
     *ofile << data.value << "\n";
     ofile->flush();
     return !ofile->fail();
diff --git a/src/psc/file.h b/src/psc/file.h
index 430b4ec..ea96127 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -21,6 +21,7 @@ namespace PSC {
         size_t ptr = 0;
         bool open = true;
         bool modified = false;
+        bool partialLine = false; // APPEND: the file lacks a final line break
 
     public:
         const String name;
-- 
2.43.0


From b91c9bcb7a1a194adcc6d6f11150954896ce421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 37/49] fix: a comment after a statement joined it with the
 next line; blank lines in record types were rejected

---
 src/lexer/lexer.cpp     | 3 +--
 src/parser/userType.cpp | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index e461e40..abafbbe 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -55,8 +55,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             if (idx >= expr->size() || currentChar != '/') {
                 tokens.emplace_back(new Token(TokenType::SLASH, line, column));
             } else {
-                int commentLine = line;
-                while (line == commentLine && idx < expr->size()) advance();
+                while (idx < expr->size() && currentChar != '\n') advance();
             }
             continue;
         } else if (currentChar == '(') {
diff --git a/src/parser/userType.cpp b/src/parser/userType.cpp
index df62671..b4a3691 100644
--- a/src/parser/userType.cpp
+++ b/src/parser/userType.cpp
@@ -59,13 +59,14 @@ Node *Parser::parseComposite(const Token &token, const Token &identifier) {
     PSC::Block *block = new PSC::Block();
     blocks.emplace_back(block);
 
+    while (currentToken->type == TokenType::LINE_END) advance();
     while (currentToken->type == TokenType::DECLARE) {
         Node *declareNode = parseDeclareExpression();
         block->addNode(declareNode);
 
         if (currentToken->type != TokenType::LINE_END)
             throw PSC::ExpectedTokenError(*currentToken, "newline");
-        advance();
+        while (currentToken->type == TokenType::LINE_END) advance();
     }
 
     if (currentToken->type != TokenType::ENDTYPE)
-- 
2.43.0


From b7323f2791f1f27f104924703b07b641d561c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 38/49] fix: a comment like '//3/4' directly after a number was
 taken for a date

---
 src/lexer/symbolLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index 7f1ad71..1a70cec 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -186,7 +186,7 @@ void Lexer::makeNumber() {
     int i = 0;
     char c = getNextChar(i);
     while (isdigit(c = getNextChar(++i))) {}
-    if (c != '/' || !isdigit(c = getNextChar(++i))) return;
+    if (c != '/' || i == 1 || !isdigit(c = getNextChar(++i))) return;
 
     for (int j = 0; j < i; j++) advance();
     while (isdigit(currentChar) && idx < expr->size()) advance();
-- 
2.43.0


From 05d8b710662e4093518b58e59b88fcaa017a8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 39/49] fix: a tab between an I/O keyword and '(' was rejected
 as if there were no space

---
 src/lexer/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index abafbbe..fdcf968 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -59,7 +59,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             }
             continue;
         } else if (currentChar == '(') {
-            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ') {
+            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ' && (*expr)[idx-1] != '\t') {
                 TokenType t = tokens[tokens.size()-1]->type;
                 if (t == TokenType::INPUT) {
                     throw PSC::LexerError(line, column, "Unexpected '('\n'INTPUT' is statement(not a function) used as 'INPUT <var>' where <var> is a variable to store the input");
-- 
2.43.0


From 9036ab3fb4b253f9aba9007eae2fb920ec425e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 40/49] fix: the REPL took names starting with a keyword for
 the keyword and missed indented constructs

---
 src/launch/repl.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index 6ebc747..c06c724 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -19,6 +19,16 @@ static const std::string multilineKeywords[] = {
     "TYPE"
 };
 
+// The first word of the entry, which decides how it is handled
+static std::string firstWord(const std::string &code) {
+    size_t start = code.find_first_not_of(" \t");
+    if (start == std::string::npos) return "";
+
+    size_t end = start;
+    while (end < code.size() && (isalnum((unsigned char) code[end]) || code[end] == '_')) end++;
+    return code.substr(start, end - start);
+}
+
 bool startREPL() {
     std::cout << "PseudoEngine2 v" << PseudoEngine2_VERSION_MAJOR << '.' << PseudoEngine2_VERSION_MINOR << '.' << PseudoEngine2_VERSION_PATCH << " REPL\nEnter '?' for help, 'EXIT' to quit\n";
 
@@ -37,7 +47,7 @@ bool startREPL() {
             continue;
         } else if (code == "EXIT") {
             break;
-        } else if (code.starts_with("RUNFILE")) {
+        } else if (code.starts_with("RUNFILE") && firstWord(code) == "RUNFILE") {
             if (size < 9) {
                 std::cerr << "Expected filename" << std::endl;
                 continue;
@@ -58,9 +68,10 @@ bool startREPL() {
             continue;
         }
 
+        const std::string word = firstWord(code);
         for (const std::string &keyword : multilineKeywords) {
-            if (code.starts_with(keyword)) {
-                if (keyword == "TYPE" && code.find("=") != std::string::npos) break;
+            if (word == keyword) {
+                if (keyword == "TYPE" && code.substr(0, code.find("//")).find("=") != std::string::npos) break;
                 std::string line = " ";
                 while (line.size() > 0) {
                     code += "\n";
-- 
2.43.0


From 10d66d3be403b08d8345f23cd46f391eb93e3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 41/49] fix: MID overflowed for huge lengths and read past the
 limits it had checked

---
 src/psc/builtinFunctions/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/builtinFunctions/string.cpp b/src/psc/builtinFunctions/string.cpp
index 1e14823..f8548a8 100644
--- a/src/psc/builtinFunctions/string.cpp
+++ b/src/psc/builtinFunctions/string.cpp
@@ -92,7 +92,7 @@ void PSC::BuiltinFnMid::run(PSC::Context &ctx) {
     int_t yVal = y->get<PSC::Integer>().value;
     if (yVal < 0)
         throw PSC::RuntimeError(PSC::errToken, ctx, "Length for 'MID' function cannot be negative");
-    if (static_cast<size_t>(yVal + xVal) > strLen)
+    if (static_cast<size_t>(yVal) > strLen - static_cast<size_t>(xVal))
         throw PSC::RuntimeError(PSC::errToken, ctx, "Substring length in 'MID' function cannot exceed string length");
 
     ret->value = strVal.substr(xVal, yVal);
-- 
2.43.0


From bccd99203c9a55b41c48e3de45fc126475177a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 42/49] fix: text such as 'nan', 'inf' or a numeral followed by
 a NUL was converted to a number

---
 src/psc/types/character.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index e307adc..c8393a2 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -1,4 +1,5 @@
 #include "pch.h"
+#include <cmath>
 
 #include "psc/types/types.h"
 
@@ -79,7 +80,7 @@ std::unique_ptr<Integer> String::toInteger() const {
     char *end;
 
     int_t x = std::strtol(cStr, &end, 10);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || cStr[0] == '\0') {
         x = 0;
     }
 
@@ -91,7 +92,9 @@ std::unique_ptr<Real> String::toReal() const {
     char *end;
 
     real_t x = std::strtod(cStr, &end);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || cStr[0] == '\0') {
+        x = 0.0;
+    } else if (std::isnan(x) || value.find_first_of("0123456789") == std::string::npos) { // 'nan', 'inf'
         x = 0.0;
     }
 
-- 
2.43.0


From 22e2070b8823e39c647191a895c826655d66fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 43/49] verif hook: execution budget for verification builds
 (PSC_VERIF)

---
 src/nodes/eval/stringcat.cpp |  5 ++++
 src/psc/array.cpp            |  5 ++++
 src/psc/scope/block.cpp      | 11 +++++++++
 src/psc/verif.h              | 48 ++++++++++++++++++++++++++++++++++++
 4 files changed, 69 insertions(+)
 create mode 100644 src/psc/verif.h

diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index ae3a80e..df35753 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -2,6 +2,7 @@
 
 #include "psc/error.h"
 #include "nodes/eval/stringcat.h"
+#include "psc/verif.h"
 
 std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx) {
     auto leftRes = left.evaluate(ctx);
@@ -14,6 +15,10 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto leftStr = static_cast<const PSC::Primitive*>(leftRes->data.get())->toString();
     auto rightStr = static_cast<const PSC::Primitive*>(rightRes->data.get())->toString();
 
+#ifdef PSC_VERIF
+    PSC::Verif::checkString(ctx, leftStr->value.size() + rightStr->value.size());
+#endif
+
     auto res = (*leftStr) & (*rightStr);
 
     return std::make_unique<NodeResult>(std::move(res), PSC::DataType::STRING);
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index d47959b..cd7b77c 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -3,6 +3,7 @@
 
 #include "psc/types/types.h"
 #include "psc/array.h"
+#include "psc/verif.h"
 
 using namespace PSC;
 
@@ -60,6 +61,10 @@ bool Array::init(Context &ctx) {
         size *= dimSize;
     }
 
+#ifdef PSC_VERIF
+    Verif::addCells(ctx, size);
+#endif
+
     try {
         data.reserve(size);
         for (size_t i = 0; i < size; i++) {
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index 21ef304..a10117b 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -5,6 +5,7 @@
 #include "nodes/loop/control.h"
 #include "psc/error.h"
 #include "psc/scope/block.h"
+#include "psc/verif.h"
 
 using namespace PSC;
 
@@ -70,17 +71,27 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
 
 void Block::_run(PSC::Context &ctx) {
     for (Node *node : nodes) {
+#ifdef PSC_VERIF
+        Verif::step(ctx);
+#endif
         node->evaluate(ctx);
     }
 }
 
 void Block::_runREPL(PSC::Context &ctx) {
     for (Node *node : nodes) {
+#ifdef PSC_VERIF
+        Verif::step(ctx);
+#endif
         runNodeREPL(node, ctx);
     }
 }
 
 void Block::run(PSC::Context &ctx) {
+#ifdef PSC_VERIF
+    Verif::Nesting nesting(ctx);
+    Verif::step(ctx);
+#endif
     if (REPLMode) _runREPL(ctx);
     else _run(ctx);
 }
diff --git a/src/psc/verif.h b/src/psc/verif.h
new file mode 100644
index 0000000..7546740
--- /dev/null
+++ b/src/psc/verif.h
@@ -0,0 +1,48 @@
+#pragma once
+
+// Execution budget for verification builds (-DPSC_VERIF). It lets a harness tell
+// non-termination and exhaustion of resources apart from the behaviour under test
+// without wall-clock timeouts: exceeding it is an ordinary runtime error.
+#ifdef PSC_VERIF
+#include <cstddef>
+#include "psc/error.h"
+
+namespace PSC::Verif {
+    // What is left of the budget
+    inline unsigned long steps = 100000, depth = 300, cells = 100000;
+    inline std::size_t maxString = 1 << 20;
+
+    inline Token budgetToken{TokenType::FUNCTION, 0, 0};
+
+    [[noreturn]] inline void exceeded(const Context &ctx, const char *what) {
+        throw RuntimeError(budgetToken, ctx, std::string("Verification budget exceeded: ") + what);
+    }
+
+    inline void step(const Context &ctx) {
+        if (steps == 0) exceeded(ctx, "steps");
+        steps--;
+    }
+
+    inline void addCells(const Context &ctx, unsigned long n) {
+        if (n > cells) exceeded(ctx, "array cells");
+        cells -= n;
+    }
+
+    inline void checkString(const Context &ctx, std::size_t length) {
+        if (length > maxString) exceeded(ctx, "string length");
+    }
+
+    // One level of nested blocks
+    class Nesting {
+    public:
+        Nesting(const Context &ctx) {
+            if (depth == 0) exceeded(ctx, "nesting depth");
+            depth--;
+        }
+
+        ~Nesting() {
+            depth++;
+        }
+    };
+}
+#endif
-- 
2.43.0


From e31d03c176ef9f92f367cfa3426117eb7ee76654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 44/49] fix: order dates with negative years before later dates

---
 src/psc/types/date.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index 412d35d..654d868 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -8,9 +8,9 @@ Date::Date(std::chrono::year_month_day date)
     : date(date) {}
 
 std::unique_ptr<Integer> Date::toInteger() const {
-    unsigned int day = static_cast<unsigned int>(date.day());
-    unsigned int month = static_cast<unsigned int>(date.month());
-    int year = static_cast<int>(date.year());
+    int_t day = static_cast<unsigned int>(date.day());
+    int_t month = static_cast<unsigned int>(date.month());
+    int_t year = static_cast<int>(date.year()); // may be negative
 
     int_t cmp = year * 372 + month * 31 + day;
     return std::make_unique<Integer>(cmp);
-- 
2.43.0


From eb8821da65672ae62f112661900e56d9400775c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 45/49] fix: let local arrays hide global variables of the same
 name

---
 src/psc/scope/context.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6c5534d..7359d9b 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -151,6 +151,7 @@ Variable *Context::getVariable(const std::string &varName, bool global) {
     }
 
     if (!global || parent == nullptr) return nullptr;
+    if (getArray(varName, false) != nullptr) return nullptr; // a local array hides the global
     return getGlobalContext()->getVariable(varName);
 }
 
@@ -207,6 +208,7 @@ Array *Context::getArray(const std::string &arrayName, bool global) {
     }
 
     if (!global || parent == nullptr) return nullptr;
+    if (getVariable(arrayName, false) != nullptr) return nullptr; // a local variable hides the global
     return getGlobalContext()->getArray(arrayName);
 }
 
-- 
2.43.0


From 9bee7052c16fd11f3b0243a2a9d0ce03b2b2b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 46/49] fix: let local types hide global types of another kind

---
 src/psc/scope/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 7359d9b..b9b6e92 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -222,6 +222,9 @@ PSC::DataType Context::getType(const Token &token, bool global) {
         else if (token.value == "DATE") return PSC::DataType(PSC::DataType::DATE);
         else std::abort();
     } else if (token.type == TokenType::IDENTIFIER) {
+        // a local type hides every global type of the same name
+        if (global && getType(token, false) != PSC::DataType::NONE) global = false;
+
         auto *enumDefinition = getEnumDefinition(token.value, global);
         if (enumDefinition != nullptr)
             return PSC::DataType(PSC::DataType::ENUM, enumDefinition);
-- 
2.43.0


From 7b6de7c69e2e16d3240446d7fcaeb177566a014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 47/49] fix: do not count a line past the end of the source

---
 src/launch/runFile.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/launch/runFile.cpp b/src/launch/runFile.cpp
index 1e40a95..8553dce 100644
--- a/src/launch/runFile.cpp
+++ b/src/launch/runFile.cpp
@@ -13,10 +13,8 @@ bool runFile() {
         return false;
     }
 
-    std::string fData;
-    while (file.good()) {
-        std::string line;
-        std::getline(file, line);
+    std::string fData, line;
+    while (std::getline(file, line)) {
         fData += line;
         fData += "\n";
     }
-- 
2.43.0


From 57bc5843576699dd769e427124c8530d6e814fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 48/49] fix: casting a DATE to REAL, BOOLEAN or CHAR aborted
 the interpreter

---
 src/nodes/cast.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index 183b057..f64be19 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -14,6 +14,10 @@ std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
 
+    // Dates have no numeric equivalent other than their ordering value
+    if (value->type == PSC::DataType::DATE && target != PSC::DataType::INTEGER && target != PSC::DataType::STRING)
+        throw PSC::TypeOperationError(token, ctx, "Cast");
+
     auto pvalue = static_cast<const PSC::Primitive*>(value->data.get());
 
     std::unique_ptr<PSC::Value> result;
-- 
2.43.0


From 6d345cdab2ad7cf568aa2c2a7413cda5fbcbf091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 49/49] fix: let local types hide global types of another kind
 in records too

---
 src/psc/scope/context.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index b9b6e92..cab6e6e 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -222,6 +222,8 @@ PSC::DataType Context::getType(const Token &token, bool global) {
         else if (token.value == "DATE") return PSC::DataType(PSC::DataType::DATE);
         else std::abort();
     } else if (token.type == TokenType::IDENTIFIER) {
+        if (global && typeScope != nullptr) return typeScope->getType(token); // records define no types themselves
+
         // a local type hides every global type of the same name
         if (global && getType(token, false) != PSC::DataType::NONE) global = false;
 
-- 
2.43.0

