From f2c7d65ab19d358209a1047495b9d8c977603ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 01/24] fix: report a parse error for blank input, "()" and an
 unmatched ')' instead of popping an empty stack

---
 single/include/tomsolver/tomsolver.h | 15 +++++++++++++--
 src/tomsolver/parse.cpp              | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5cae8a4..aae07f0 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3534,9 +3534,15 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
-            for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
-                postOrder.emplace_back(std::move(token));
+            while (!tokenStack.empty() && tokenStack.top().node->op != MathOperator::MATH_LEFT_PARENTHESIS) {
+                postOrder.emplace_back(popToken());
+            }
+            // 栈里没有与之匹配的左括号
+            if (tokenStack.empty()) {
+                throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            popToken(); // 左括号
+            parenthesisBalance--;
             if (!tokenStack.empty() && IsFunction(tokenStack.top().node->op)) {
                 postOrder.emplace_back(popToken());
             }
@@ -3657,6 +3663,11 @@ inline Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
         throw MultiParseError(errors);
     }
 
+    // 没有任何操作数，例如"()"或者全是空白字符
+    if (tokenStack.empty()) {
+        throw SingleParseError(0, 0, StringView{}, "empty expression");
+    }
+
     return popNode();
 }
 
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 509ea18..6a6732c 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -245,9 +245,15 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
-            for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
-                postOrder.emplace_back(std::move(token));
+            while (!tokenStack.empty() && tokenStack.top().node->op != MathOperator::MATH_LEFT_PARENTHESIS) {
+                postOrder.emplace_back(popToken());
+            }
+            // 栈里没有与之匹配的左括号
+            if (tokenStack.empty()) {
+                throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            popToken(); // 左括号
+            parenthesisBalance--;
             if (!tokenStack.empty() && IsFunction(tokenStack.top().node->op)) {
                 postOrder.emplace_back(popToken());
             }
@@ -368,6 +374,11 @@ Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
         throw MultiParseError(errors);
     }
 
+    // 没有任何操作数，例如"()"或者全是空白字符
+    if (tokenStack.empty()) {
+        throw SingleParseError(0, 0, StringView{}, "empty expression");
+    }
+
     return popNode();
 }
 
-- 
2.43.0


From 530d79147b7b4fb4d73b700f36ddd127e31db202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 02/24] fix: Parse reports a missing operand as a ParseError,
 as documented

---
 single/include/tomsolver/tomsolver.h | 6 +++---
 src/tomsolver/parse.cpp              | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index aae07f0..f598416 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3611,14 +3611,14 @@ inline Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
         case NodeType::OPERATOR:
             if (GetOperatorNum(token.node->op) == 2) {
                 if (tokenStack.empty()) {
-                    throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+                    throw SingleParseError(token.line, token.pos, token.content, "Missing operand: \"", token.s, "\"");
                 }
 
                 tokenStack.top().node->parent = token.node.get();
                 token.node->right = popNode();
 
                 if (tokenStack.empty()) {
-                    throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+                    throw SingleParseError(token.line, token.pos, token.content, "Missing operand: \"", token.s, "\"");
                 }
 
                 tokenStack.top().node->parent = token.node.get();
@@ -3632,7 +3632,7 @@ inline Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
             assert(GetOperatorNum(token.node->op) == 1);
 
             if (tokenStack.empty()) {
-                throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+                throw SingleParseError(token.line, token.pos, token.content, "Missing operand: \"", token.s, "\"");
             }
 
             tokenStack.top().node->parent = token.node.get();
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 6a6732c..ff705a0 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -1,6 +1,5 @@
 #include "parse.h"
 
-#include "error_type.h"
 #include "math_operator.h"
 #include "node.h"
 #include <algorithm>
@@ -322,14 +321,14 @@ Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
         case NodeType::OPERATOR:
             if (GetOperatorNum(token.node->op) == 2) {
                 if (tokenStack.empty()) {
-                    throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+                    throw SingleParseError(token.line, token.pos, token.content, "Missing operand: \"", token.s, "\"");
                 }
 
                 tokenStack.top().node->parent = token.node.get();
                 token.node->right = popNode();
 
                 if (tokenStack.empty()) {
-                    throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+                    throw SingleParseError(token.line, token.pos, token.content, "Missing operand: \"", token.s, "\"");
                 }
 
                 tokenStack.top().node->parent = token.node.get();
@@ -343,7 +342,7 @@ Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
             assert(GetOperatorNum(token.node->op) == 1);
 
             if (tokenStack.empty()) {
-                throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+                throw SingleParseError(token.line, token.pos, token.content, "Missing operand: \"", token.s, "\"");
             }
 
             tokenStack.top().node->parent = token.node.get();
-- 
2.43.0


From 02a0d3a6e1b17c549af9ccd85316301f7334a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 03/24] fix: parse errors show the offending line; isspace is
 not called with negative values

---
 single/include/tomsolver/tomsolver.h | 6 +++---
 src/tomsolver/parse.cpp              | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index f598416..03a8fb0 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3431,7 +3431,7 @@ namespace internal {
 inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
@@ -3464,7 +3464,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
@@ -3480,7 +3480,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
                              content);
             ret.back().node = Op(BaseOperatorCharToEnum(*iter, unaryOp));
             nameIter = ++iter;
-        } else if (isspace(*iter)) {
+        } else if (isspace(static_cast<unsigned char>(*iter))) {
             // 忽略tab (\t) whitespaces (\n, \v, \f, \r) space
             tryComfirmToken();
             nameIter = ++iter;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index ff705a0..e6a6a06 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -141,7 +141,7 @@ namespace internal {
 std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
@@ -174,7 +174,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
@@ -190,7 +190,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
                              content);
             ret.back().node = Op(BaseOperatorCharToEnum(*iter, unaryOp));
             nameIter = ++iter;
-        } else if (isspace(*iter)) {
+        } else if (isspace(static_cast<unsigned char>(*iter))) {
             // 忽略tab (\t) whitespaces (\n, \v, \f, \r) space
             tryComfirmToken();
             nameIter = ++iter;
-- 
2.43.0


From cc6c0e32af2fb00c9f6de0d2cf84c90c1972c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 04/24] fix: the parser knows asin, acos and atan, the names
 that are documented and printed

---
 single/include/tomsolver/tomsolver.h | 3 +++
 src/tomsolver/parse.cpp              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 03a8fb0..7f43f49 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3379,10 +3379,13 @@ inline MathOperator Str2Function(internal::StringView s) noexcept {
         return MathOperator::MATH_COS;
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
+    case "asin"_fnv1a:
     case "arcsin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
+    case "acos"_fnv1a:
     case "arccos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
+    case "atan"_fnv1a:
     case "arctan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index e6a6a06..3c1166a 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -89,10 +89,13 @@ MathOperator Str2Function(internal::StringView s) noexcept {
         return MathOperator::MATH_COS;
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
+    case "asin"_fnv1a:
     case "arcsin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
+    case "acos"_fnv1a:
     case "arccos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
+    case "atan"_fnv1a:
     case "arctan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
-- 
2.43.0


From 2b7875cc318ac2245b5cd9669523eb65f9a0c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 05/24] fix: the derivative of exp(y) with respect to another
 variable is 0

---
 single/include/tomsolver/tomsolver.h | 4 ----
 src/tomsolver/diff.cpp               | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 7f43f49..105bd13 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4239,10 +4239,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index a83450e..b3ef1bf 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -241,10 +241,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
-- 
2.43.0


From 23989e40c6104e4e06c4d2535b22a4d50ed2243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 06/24] fix: %, & and | yield an invalid number instead of
 trapping on a zero divisor or an operand outside int

---
 single/include/tomsolver/tomsolver.h | 24 +++++++++++++++++++++---
 src/tomsolver/math_operator.cpp      | 24 +++++++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 105bd13..e98f22c 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1905,6 +1905,17 @@ inline bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+namespace {
+
+/**
+ * 返回v转换为int时是否不会溢出。
+ */
+inline bool FitsInt(double v) noexcept {
+    return v >= std::numeric_limits<int>::min() && v <= std::numeric_limits<int>::max();
+}
+
+} // namespace
+
 inline double Calc(MathOperator op, double v1, double v2) {
     double ret = std::numeric_limits<double>::quiet_NaN();
     switch (op) {
@@ -1949,13 +1960,20 @@ inline double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        if (FitsInt(v1) && FitsInt(v2) && static_cast<int>(v2) != 0) {
+            // 用long long计算，避免INT_MIN % -1溢出
+            ret = static_cast<double>(static_cast<long long>(v1) % static_cast<int>(v2));
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (FitsInt(v1) && FitsInt(v2)) {
+            ret = static_cast<int>(v1) & static_cast<int>(v2);
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (FitsInt(v1) && FitsInt(v2)) {
+            ret = static_cast<int>(v1) | static_cast<int>(v2);
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 0872c01..184b0e8 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -270,6 +270,17 @@ bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+namespace {
+
+/**
+ * 返回v转换为int时是否不会溢出。
+ */
+bool FitsInt(double v) noexcept {
+    return v >= std::numeric_limits<int>::min() && v <= std::numeric_limits<int>::max();
+}
+
+} // namespace
+
 double Calc(MathOperator op, double v1, double v2) {
     double ret = std::numeric_limits<double>::quiet_NaN();
     switch (op) {
@@ -314,13 +325,20 @@ double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        if (FitsInt(v1) && FitsInt(v2) && static_cast<int>(v2) != 0) {
+            // 用long long计算，避免INT_MIN % -1溢出
+            ret = static_cast<double>(static_cast<long long>(v1) % static_cast<int>(v2));
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (FitsInt(v1) && FitsInt(v2)) {
+            ret = static_cast<int>(v1) & static_cast<int>(v2);
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (FitsInt(v1) && FitsInt(v2)) {
+            ret = static_cast<int>(v1) | static_cast<int>(v2);
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
-- 
2.43.0


From 9d116554e66bc5f8cb8116fadded6a43375c54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 07/24] fix: Simplify (noexcept) leaves a constant without a
 valid value as it is instead of terminating

---
 single/include/tomsolver/tomsolver.h | 22 ++++++++++++++++++++--
 src/tomsolver/simplify.cpp           | 23 +++++++++++++++++++++--
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index e98f22c..3174c5b 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3016,6 +3016,16 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 计算常数表达式。如果结果是无效值(inf, -inf, nan)而抛出异常，返回false，此时该表达式应保持原样。
+    static bool TryCalc(MathOperator op, double l, double r, double &value) noexcept {
+        try {
+            value = tomsolver::Calc(op, l, r);
+            return true;
+        } catch (const MathError &) {
+            return false;
+        }
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -3023,8 +3033,12 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
+                double value;
+                if (!TryCalc(n->op, n->left->value, 0, value)) {
+                    break;
+                }
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
+                n->value = value;
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
             }
@@ -3034,8 +3048,12 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
+                double value;
+                if (!TryCalc(n->op, n->left->value, n->right->value, value)) {
+                    return;
+                }
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
+                n->value = value;
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
                 n->right = nullptr;
diff --git a/src/tomsolver/simplify.cpp b/src/tomsolver/simplify.cpp
index 98a9558..7fff849 100644
--- a/src/tomsolver/simplify.cpp
+++ b/src/tomsolver/simplify.cpp
@@ -1,4 +1,5 @@
 #include "simplify.h"
+#include "error_type.h"
 #include "math_operator.h"
 #include "node.h"
 
@@ -20,6 +21,16 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 计算常数表达式。如果结果是无效值(inf, -inf, nan)而抛出异常，返回false，此时该表达式应保持原样。
+    static bool TryCalc(MathOperator op, double l, double r, double &value) noexcept {
+        try {
+            value = tomsolver::Calc(op, l, r);
+            return true;
+        } catch (const MathError &) {
+            return false;
+        }
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -27,8 +38,12 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
+                double value;
+                if (!TryCalc(n->op, n->left->value, 0, value)) {
+                    break;
+                }
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
+                n->value = value;
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
             }
@@ -38,8 +53,12 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
+                double value;
+                if (!TryCalc(n->op, n->left->value, n->right->value, value)) {
+                    return;
+                }
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
+                n->value = value;
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
                 n->right = nullptr;
-- 
2.43.0


From ea4fea4a829d9ce0b9d753ce3bf17ecef2fc5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 08/24] fix: Jacobian is not noexcept, so that Diff's
 runtime_error reaches the caller

---
 single/include/tomsolver/tomsolver.h | 10 +++++++---
 src/tomsolver/symmat.cpp             |  2 +-
 src/tomsolver/symmat.h               |  8 ++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 3174c5b..5838ad7 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2800,7 +2800,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -2825,7 +2825,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 求雅可比矩阵。
+ * @exception runtime_error 存在无法求导的运算符
+ */
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
@@ -4635,7 +4639,7 @@ inline const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index 08ecb46..e9750d9 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -204,7 +204,7 @@ const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.h b/src/tomsolver/symmat.h
index 9f4bda8..1377bf4 100644
--- a/src/tomsolver/symmat.h
+++ b/src/tomsolver/symmat.h
@@ -97,7 +97,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -122,7 +122,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 求雅可比矩阵。
+ * @exception runtime_error 存在无法求导的运算符
+ */
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
-- 
2.43.0


From 6c5d74aa3626eb525a92d8fefc6ce9245624e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 09/24] fix: n += n and the other compound assignments work
 when both operands are the same node

---
 single/include/tomsolver/tomsolver.h | 30 +++++++++++++++++++++++-----
 src/tomsolver/node.cpp               |  8 ++++++++
 src/tomsolver/node.h                 | 22 +++++++++++++++-----
 3 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5838ad7..ebd66ef 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -851,6 +851,13 @@ inline void CopyOrMoveTo(NodeImpl *parent, Node &child, Node &&n1) noexcept;
  */
 inline void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept;
 
+/**
+ * 右值被移动，左值被克隆。
+ */
+inline Node CopyOrMove(Node &&n) noexcept;
+
+inline Node CopyOrMove(const Node &n) noexcept;
+
 /**
  * 重载std::ostream的<<操作符以输出一个Node节点。
  */
@@ -925,7 +932,8 @@ inline SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -946,7 +954,8 @@ inline SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -957,7 +966,8 @@ inline SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -968,7 +978,8 @@ inline SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -979,7 +990,8 @@ inline SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -1556,6 +1568,14 @@ inline void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept
     child = std::move(n1Clone);
 }
 
+inline Node CopyOrMove(Node &&n) noexcept {
+    return std::move(n);
+}
+
+inline Node CopyOrMove(const Node &n) noexcept {
+    return Clone(n);
+}
+
 inline std::ostream &operator<<(std::ostream &out, const Node &n) noexcept {
     out << n->ToString();
     return out;
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 2bc8831..485c67c 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -587,6 +587,14 @@ void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept {
     child = std::move(n1Clone);
 }
 
+Node CopyOrMove(Node &&n) noexcept {
+    return std::move(n);
+}
+
+Node CopyOrMove(const Node &n) noexcept {
+    return Clone(n);
+}
+
 std::ostream &operator<<(std::ostream &out, const Node &n) noexcept {
     out << n->ToString();
     return out;
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index 353af17..da03ae2 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -164,6 +164,13 @@ void CopyOrMoveTo(NodeImpl *parent, Node &child, Node &&n1) noexcept;
  */
 void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept;
 
+/**
+ * 右值被移动，左值被克隆。
+ */
+Node CopyOrMove(Node &&n) noexcept;
+
+Node CopyOrMove(const Node &n) noexcept;
+
 /**
  * 重载std::ostream的<<操作符以输出一个Node节点。
  */
@@ -238,7 +245,8 @@ SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -259,7 +267,8 @@ SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -270,7 +279,8 @@ SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -281,7 +291,8 @@ SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -292,7 +303,8 @@ SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
+    Node rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在n1被移走之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::move(rhs));
     return n1;
 }
 
-- 
2.43.0


From 9198313d785eb5ba3a3880a0992a9d76c08e9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 10/24] fix: checking a very long variable name does not
 overflow the stack

---
 single/include/tomsolver/tomsolver.h | 11 ++++++++++-
 src/tomsolver/node.cpp               | 13 +++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ebd66ef..3358d4a 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1650,7 +1650,16 @@ inline Node Op(MathOperator op) {
 }
 
 inline bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex_match：它对每个字符递归一层，名字过长时会栈溢出
+    auto isLetter = [](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+    };
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    return !varname.empty() && isLetter(varname[0]) && std::all_of(varname.begin(), varname.end(), [&](char c) {
+        return isLetter(c) || isDigit(c);
+    });
 }
 
 inline Node Var(std::string varname) {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 485c67c..66097d2 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -3,13 +3,13 @@
 #include "config.h"
 #include "math_operator.h"
 
+#include <algorithm>
 #include <cassert>
 #include <forward_list>
 #include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
-#include <regex>
 #include <stack>
 #include <string>
 #include <type_traits>
@@ -669,7 +669,16 @@ Node Op(MathOperator op) {
 }
 
 bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex_match：它对每个字符递归一层，名字过长时会栈溢出
+    auto isLetter = [](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+    };
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    return !varname.empty() && isLetter(varname[0]) && std::all_of(varname.begin(), varname.end(), [&](char c) {
+        return isLetter(c) || isDigit(c);
+    });
 }
 
 Node Var(std::string varname) {
-- 
2.43.0


From 66aa17a9015fe5d1990ec6869e904f44a54e780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 11/24] fix: EachDivide divides the elements of the first
 matrix

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 3358d4a..101dffb 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2314,7 +2314,7 @@ inline Mat operator*(double k, const Mat &mat) noexcept {
 inline Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 inline bool IsZero(const Mat &mat) noexcept {
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index ee1e783..82532af 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -270,7 +270,7 @@ Mat operator*(double k, const Mat &mat) noexcept {
 Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 bool IsZero(const Mat &mat) noexcept {
-- 
2.43.0


From 17a67a08801405e0e7920e99392c96323731f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 12/24] fix: a short row in a Mat or SymMat initializer list is
 filled with zeros

---
 single/include/tomsolver/tomsolver.h | 7 ++++++-
 src/tomsolver/mat.cpp                | 3 ++-
 src/tomsolver/symmat.cpp             | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 101dffb..5c2c9f3 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2073,7 +2073,8 @@ inline Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexc
 
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        // 某行元素较少时，剩余元素为0
+        std::copy(values.begin(), values.end(), std::begin(data) + cols * i++);
     }
 }
 
@@ -4497,6 +4498,10 @@ inline SymMat::SymMat(std::initializer_list<std::initializer_list<Node>> init) n
         for (auto &node : val) {
             (*data)[i * cols + j++] = std::move(const_cast<Node &>(node));
         }
+        // 某行元素较少时，剩余元素为0
+        for (; j < cols; ++j) {
+            (*data)[i * cols + j] = Num(0);
+        }
         i++;
     }
 }
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 82532af..c909ac1 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -30,7 +30,8 @@ Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexcept {
 
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        // 某行元素较少时，剩余元素为0
+        std::copy(values.begin(), values.end(), std::begin(data) + cols * i++);
     }
 }
 
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index e9750d9..027351b 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -33,6 +33,10 @@ SymMat::SymMat(std::initializer_list<std::initializer_list<Node>> init) noexcept
         for (auto &node : val) {
             (*data)[i * cols + j++] = std::move(const_cast<Node &>(node));
         }
+        // 某行元素较少时，剩余元素为0
+        for (; j < cols; ++j) {
+            (*data)[i * cols + j] = Num(0);
+        }
         i++;
     }
 }
-- 
2.43.0


From 1fa69372d7ffa9a61ac5bd959df1a467f68e38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 13/24] fix: GetMaxAbsRowIndex returns a row of the matrix even
 when the column contains NaN

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5c2c9f3..3ad0105 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2334,7 +2334,7 @@ inline bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 inline int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index c909ac1..0cace9a 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -290,7 +290,7 @@ bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
-- 
2.43.0


From 5dc7c3e1a2d9121e7254271345f3a7109e404707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 14/24] fix: SolveLinear detects every rank deficiency and
 returns only vectors that satisfy the system

---
 single/include/tomsolver/tomsolver.h | 89 +++++++++-------------------
 src/tomsolver/linear.cpp             | 89 +++++++++-------------------
 2 files changed, 56 insertions(+), 122 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 3ad0105..592cc99 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2544,8 +2544,6 @@ inline Vec SolveLinear(Mat A, Vec b) {
     int rows = A.Rows(); // 行数
     int cols = rows;     // 列数=未知数个数
 
-    int RankA = rows, RankAb = rows; // 初始值
-
     assert(rows == b.Rows()); // A行数不等于b行数
 
     Vec ret(rows);
@@ -2564,10 +2562,10 @@ inline Vec SolveLinear(Mat A, Vec b) {
         }
     }
 
-    std::vector<int> TrueRowNumber(cols);
+    std::vector<int> pivotCols; // 每个非零行的主元所在的列。消元后，其元素个数即为系数矩阵的秩
 
     // 列主元消元法
-    for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
+    for (auto y = 0, x = 0; y < rows && x < cols; x++) {
         // if (A[i].size() != rows)
 
         // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
@@ -2575,37 +2573,9 @@ inline Vec SolveLinear(Mat A, Vec b) {
         A.SwapRow(y, maxAbsRowIndex);
         b.SwapRow(y, maxAbsRowIndex);
 
-        while (std::abs(A.Value(y, x)) < Config::Get().epsilon) // 如果当前值为0  x一直递增到非0
-        {
-            x++;
-            if (x == cols) {
-                break;
-            }
-
-            // 交换本行与最大行
-            maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-            A.SwapRow(y, maxAbsRowIndex);
-            b.SwapRow(y, maxAbsRowIndex);
-        }
-
-        if (x != cols && x > y) {
-            TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
-        }
-
-        if (x == cols) // 本行全为0
-        {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+        // 如果当前值为0（或nan）  x一直递增到非0
+        if (!(std::abs(A.Value(y, x)) >= Config::Get().epsilon)) {
+            continue;
         }
 
         // 主对角线化为1
@@ -2624,41 +2594,38 @@ inline Vec SolveLinear(Mat A, Vec b) {
                 b[row] -= b[y] * ratioRow;
             }
         }
+
+        pivotCols.push_back(x);
+        y++;
     }
 
-    bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
+    int rankA = static_cast<int>(pivotCols.size());
 
-    // 若为不定方程组，空缺行全填0继续运算
-    if (rows != cols) {
-        A.Resize(cols, cols);
-        b.Resize(cols);
-        rows = cols;
-        bIndeterminateEquation = true;
+    // 其余的行系数全为0，常数项也必须为0
+    for (int row = rankA; row < rows; row++) {
+        if (!(std::abs(b[row]) < Config::Get().epsilon)) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
+    }
 
-        // 调整顺序
-        for (int i = rows - 1; i >= 0; i--) {
-            if (TrueRowNumber[i] != 0) {
-                A.SwapRow(i, TrueRowNumber[i]);
-                b.SwapRow(i, TrueRowNumber[i]);
-            }
+    if (rankA < cols) {
+        if (rows == cols) {
+            throw MathError(ErrorType::ERROR_INFINITY_SOLUTIONS);
+        }
+        // 若为不定方程组，自由变量全取0，得到特解
+        if (!Config::Get().allowIndeterminateEquation) {
+            throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION, "A = " + A.ToString() + "\nb = " + b.ToString());
         }
     }
 
     // 后置换得到x
-    for (int i = rows - 1; i >= 0; i--) // 最后1行->第1行
+    for (int y = rankA - 1; y >= 0; y--) // 最后1行->第1行
     {
-        auto vec = asConst(A).Row(i, i + 1) * asConst(ret).Col(0, i + 1);
-        ret[i] = b[i] - (vec.size() ? vec.sum() : 0);
-    }
-
-    if (RankA < cols && RankA == RankAb) {
-        if (bIndeterminateEquation) {
-            if (!Config::Get().allowIndeterminateEquation) {
-                throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION,
-                                "A = " + A.ToString() + "\nb = " + b.ToString());
-            }
-        } else {
-            throw MathError(ErrorType::ERROR_INFINITY_SOLUTIONS);
+        int x = pivotCols[y];
+        ret[x] = b[y];
+        for (int col = x + 1; col < cols; col++) {
+            ret[x] -= A.Value(y, col) * ret[col];
         }
     }
 
diff --git a/src/tomsolver/linear.cpp b/src/tomsolver/linear.cpp
index 2c680db..536a012 100644
--- a/src/tomsolver/linear.cpp
+++ b/src/tomsolver/linear.cpp
@@ -25,8 +25,6 @@ Vec SolveLinear(Mat A, Vec b) {
     int rows = A.Rows(); // 行数
     int cols = rows;     // 列数=未知数个数
 
-    int RankA = rows, RankAb = rows; // 初始值
-
     assert(rows == b.Rows()); // A行数不等于b行数
 
     Vec ret(rows);
@@ -45,10 +43,10 @@ Vec SolveLinear(Mat A, Vec b) {
         }
     }
 
-    std::vector<int> TrueRowNumber(cols);
+    std::vector<int> pivotCols; // 每个非零行的主元所在的列。消元后，其元素个数即为系数矩阵的秩
 
     // 列主元消元法
-    for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
+    for (auto y = 0, x = 0; y < rows && x < cols; x++) {
         // if (A[i].size() != rows)
 
         // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
@@ -56,37 +54,9 @@ Vec SolveLinear(Mat A, Vec b) {
         A.SwapRow(y, maxAbsRowIndex);
         b.SwapRow(y, maxAbsRowIndex);
 
-        while (std::abs(A.Value(y, x)) < Config::Get().epsilon) // 如果当前值为0  x一直递增到非0
-        {
-            x++;
-            if (x == cols) {
-                break;
-            }
-
-            // 交换本行与最大行
-            maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-            A.SwapRow(y, maxAbsRowIndex);
-            b.SwapRow(y, maxAbsRowIndex);
-        }
-
-        if (x != cols && x > y) {
-            TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
-        }
-
-        if (x == cols) // 本行全为0
-        {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+        // 如果当前值为0（或nan）  x一直递增到非0
+        if (!(std::abs(A.Value(y, x)) >= Config::Get().epsilon)) {
+            continue;
         }
 
         // 主对角线化为1
@@ -105,41 +75,38 @@ Vec SolveLinear(Mat A, Vec b) {
                 b[row] -= b[y] * ratioRow;
             }
         }
+
+        pivotCols.push_back(x);
+        y++;
     }
 
-    bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
+    int rankA = static_cast<int>(pivotCols.size());
 
-    // 若为不定方程组，空缺行全填0继续运算
-    if (rows != cols) {
-        A.Resize(cols, cols);
-        b.Resize(cols);
-        rows = cols;
-        bIndeterminateEquation = true;
+    // 其余的行系数全为0，常数项也必须为0
+    for (int row = rankA; row < rows; row++) {
+        if (!(std::abs(b[row]) < Config::Get().epsilon)) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
+    }
 
-        // 调整顺序
-        for (int i = rows - 1; i >= 0; i--) {
-            if (TrueRowNumber[i] != 0) {
-                A.SwapRow(i, TrueRowNumber[i]);
-                b.SwapRow(i, TrueRowNumber[i]);
-            }
+    if (rankA < cols) {
+        if (rows == cols) {
+            throw MathError(ErrorType::ERROR_INFINITY_SOLUTIONS);
+        }
+        // 若为不定方程组，自由变量全取0，得到特解
+        if (!Config::Get().allowIndeterminateEquation) {
+            throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION, "A = " + A.ToString() + "\nb = " + b.ToString());
         }
     }
 
     // 后置换得到x
-    for (int i = rows - 1; i >= 0; i--) // 最后1行->第1行
+    for (int y = rankA - 1; y >= 0; y--) // 最后1行->第1行
     {
-        auto vec = asConst(A).Row(i, i + 1) * asConst(ret).Col(0, i + 1);
-        ret[i] = b[i] - (vec.size() ? vec.sum() : 0);
-    }
-
-    if (RankA < cols && RankA == RankAb) {
-        if (bIndeterminateEquation) {
-            if (!Config::Get().allowIndeterminateEquation) {
-                throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION,
-                                "A = " + A.ToString() + "\nb = " + b.ToString());
-            }
-        } else {
-            throw MathError(ErrorType::ERROR_INFINITY_SOLUTIONS);
+        int x = pivotCols[y];
+        ret[x] = b[y];
+        for (int col = x + 1; col < cols; col++) {
+            ret[x] -= A.Value(y, col) * ret[col];
         }
     }
 
-- 
2.43.0


From d7278667787999696559c1643503ee4ed28cea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 15/24] fix: Newton-Raphson iterates from the given initial
 values

---
 single/include/tomsolver/tomsolver.h | 3 +--
 src/tomsolver/nonlinear.cpp          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 592cc99..73c56a3 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3853,8 +3853,7 @@ inline void PrintAtIterationStart(int it) noexcept {
 inline VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index dd1c74e..671e201 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -89,8 +89,7 @@ void PrintAtIterationStart(int it) noexcept {
 VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values();  // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
-- 
2.43.0


From e9c8ad665c5d98f55fc0d89d3c75f06751219bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 16/24] fix: Levenberg-Marquardt reports a non-square system
 instead of combining matrices of different sizes

---
 single/include/tomsolver/tomsolver.h | 6 ++++++
 src/tomsolver/nonlinear.cpp          | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 73c56a3..c3bf373 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3910,6 +3910,12 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
     Vec q = table.Values();  // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
+    // 下面的1维搜索要求方程数量等于未知量数量
+    if (equations.Rows() != n) {
+        throw MathError(equations.Rows() > n ? ErrorType::ERROR_OVER_DETERMINED_EQUATIONS
+                                             : ErrorType::ERROR_INDETERMINATE_EQUATION);
+    }
+
     SymMat JaEqs = Jacobian(equations, table.Vars());
     internal::PrintJacobian(JaEqs);
 
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 671e201..8a3ce57 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -146,6 +146,12 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
     Vec q = table.Values();  // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
+    // 下面的1维搜索要求方程数量等于未知量数量
+    if (equations.Rows() != n) {
+        throw MathError(equations.Rows() > n ? ErrorType::ERROR_OVER_DETERMINED_EQUATIONS
+                                             : ErrorType::ERROR_INDETERMINATE_EQUATION);
+    }
+
     SymMat JaEqs = Jacobian(equations, table.Vars());
     internal::PrintJacobian(JaEqs);
 
-- 
2.43.0


From b2d163fdd04c52c27cd6787c184fa4efc7fec4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 17/24] fix: Levenberg-Marquardt evaluates the Jacobian at the
 current iterate after a rejected step

---
 single/include/tomsolver/tomsolver.h | 1 +
 src/tomsolver/nonlinear.cpp          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index c3bf373..212bdd5 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3938,6 +3938,7 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
         Vec deltaq(n); // Δq
         while (1) {
 
+            table.SetValues(q); // 上一轮试探可能已经改变了table，J必须和F在同一点求值
             Mat J = JaEqs.Clone().Subs(table).Calc().ToMat(); // 计算雅可比矩阵
 
             if (Config::Get().logLevel >= LogLevel::TRACE) {
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 8a3ce57..4c377a4 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -174,6 +174,7 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
         Vec deltaq(n); // Δq
         while (1) {
 
+            table.SetValues(q); // 上一轮试探可能已经改变了table，J必须和F在同一点求值
             Mat J = JaEqs.Clone().Subs(table).Calc().ToMat(); // 计算雅可比矩阵
 
             if (Config::Get().logLevel >= LogLevel::TRACE) {
-- 
2.43.0


From 1426ccda69c7ee4e83d8a3a977aca0eb838e9726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 18/24] fix: the solvers stop when maxIterations is negative or
 the line search meets NaN

---
 single/include/tomsolver/tomsolver.h | 7 ++++---
 src/tomsolver/nonlinear.cpp          | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 212bdd5..ecc32e8 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3781,8 +3781,9 @@ inline double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std:
     double alpha = 1;   // a > 0
     double gamma = 0.4; // 取值范围(0, 0.5)越大越快
     double sigma = 0.5; // 取值范围(0, 1)越大越慢
+    int maxIter = 100;
     Vec x_new(x);
-    while (1) {
+    for (int it = 0; it < maxIter; ++it) {
         x_new = x + alpha * d;
 
         auto l = f(x_new).Norm2();
@@ -4000,7 +4001,7 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
                 mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
             }
 
-            if (it++ == Config::Get().maxIterations) {
+            if (it++ >= Config::Get().maxIterations) {
                 throw runtime_error("迭代次数超出限制");
             }
         }
@@ -4011,7 +4012,7 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
 
         F = FNew; // 更新F
 
-        if (it++ == Config::Get().maxIterations) {
+        if (it++ >= Config::Get().maxIterations) {
             throw runtime_error("迭代次数超出限制");
         }
 
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 4c377a4..91c9fe8 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -17,8 +17,9 @@ double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std::functi
     double alpha = 1;   // a > 0
     double gamma = 0.4; // 取值范围(0, 0.5)越大越快
     double sigma = 0.5; // 取值范围(0, 1)越大越慢
+    int maxIter = 100;
     Vec x_new(x);
-    while (1) {
+    for (int it = 0; it < maxIter; ++it) {
         x_new = x + alpha * d;
 
         auto l = f(x_new).Norm2();
@@ -236,7 +237,7 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
                 mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
             }
 
-            if (it++ == Config::Get().maxIterations) {
+            if (it++ >= Config::Get().maxIterations) {
                 throw runtime_error("迭代次数超出限制");
             }
         }
@@ -247,7 +248,7 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
 
         F = FNew; // 更新F
 
-        if (it++ == Config::Get().maxIterations) {
+        if (it++ >= Config::Get().maxIterations) {
             throw runtime_error("迭代次数超出限制");
         }
 
-- 
2.43.0


From ba3b7f998a8becf6e4b0c3fe3fdd4078b99b768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 19/24] fix: FindAlpha respects the configured log level

---
 single/include/tomsolver/tomsolver.h | 4 +++-
 src/tomsolver/nonlinear.cpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ecc32e8..20527ef 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3822,7 +3822,9 @@ inline double FindAlpha(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, d
 
         // cout << it<<"\t"<<alpha_new << endl;
         if (it++ > maxIter) {
-            cout << "FindAlpha: over iterator" << endl;
+            if (Config::Get().logLevel >= LogLevel::WARN) {
+                cout << "FindAlpha: over iterator" << endl;
+            }
             break;
         }
     }
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 91c9fe8..b2be48f 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -58,7 +58,9 @@ double FindAlpha(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, double u
 
         // cout << it<<"\t"<<alpha_new << endl;
         if (it++ > maxIter) {
-            cout << "FindAlpha: over iterator" << endl;
+            if (Config::Get().logLevel >= LogLevel::WARN) {
+                cout << "FindAlpha: over iterator" << endl;
+            }
             break;
         }
     }
-- 
2.43.0


From 6d26d64fed8b719320cb0247ef5d6fc4483c07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 20/24] fix: Diff returns when the order is negative

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/diff.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 20527ef..176c281 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4436,7 +4436,7 @@ inline Node Diff(const Node &node, const std::string &varname, int i) {
 inline Node Diff(Node &&node, const std::string &varname, int i) {
     assert(i > 0);
     auto n = std::move(node);
-    while (i--) {
+    while (i-- > 0) {
         internal::DiffFunctions::DiffOnce(n, varname);
     }
 #ifndef NDEBUG
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index b3ef1bf..d2b8e77 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -392,7 +392,7 @@ Node Diff(const Node &node, const std::string &varname, int i) {
 Node Diff(Node &&node, const std::string &varname, int i) {
     assert(i > 0);
     auto n = std::move(node);
-    while (i--) {
+    while (i-- > 0) {
         internal::DiffFunctions::DiffOnce(n, varname);
     }
 #ifndef NDEBUG
-- 
2.43.0


From 40a80fab531667ff0f16ba38be3c8b40c6270a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 21/24] fix: <tomsolver/tomsolver.h> declares MathError and
 ErrorType

---
 src/tomsolver/tomsolver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tomsolver/tomsolver.h b/src/tomsolver/tomsolver.h
index bbed204..f414523 100644
--- a/src/tomsolver/tomsolver.h
+++ b/src/tomsolver/tomsolver.h
@@ -2,6 +2,7 @@
 
 #include "config.h"
 #include "node.h" // error_type.h math_operator.h
+#include "error_type.h"
 #include "functions.h"
 #include "simplify.h"
 #include "diff.h"
-- 
2.43.0


From b561b5d6ed63a6b8dc560b785f3d6afb85488b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 22/24] fix: the error for an expression without operands shows
 the given text

---
 single/include/tomsolver/tomsolver.h | 3 +++
 src/tomsolver/parse.cpp              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 176c281..c43c4dd 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3716,6 +3716,9 @@ inline Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
 inline Node Parse(internal::StringView expression) {
     auto tokens = internal::ParseFunctions::ParseToTokens(expression);
     auto postOrder = internal::ParseFunctions::InOrderToPostOrder(tokens);
+    if (postOrder.empty()) {
+        throw SingleParseError(0, 0, expression, "empty expression");
+    }
     auto node = internal::ParseFunctions::BuildExpressionTree(postOrder);
     return node;
 }
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 3c1166a..7e809ea 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -389,6 +389,9 @@ Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
 Node Parse(internal::StringView expression) {
     auto tokens = internal::ParseFunctions::ParseToTokens(expression);
     auto postOrder = internal::ParseFunctions::InOrderToPostOrder(tokens);
+    if (postOrder.empty()) {
+        throw SingleParseError(0, 0, expression, "empty expression");
+    }
     auto node = internal::ParseFunctions::BuildExpressionTree(postOrder);
     return node;
 }
-- 
2.43.0


From 795dab5b5791783076df4e7d6ab517806663c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 23/24] fix: single header: inline ToString must not use a
 per-translation-unit table

---
 single/include/tomsolver/tomsolver.h | 16 +++++++---------
 src/tomsolver/config.cpp             | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index c43c4dd..03d38f2 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -478,20 +478,18 @@ inline std::string ToString(double value) noexcept;
 
 namespace tomsolver {
 
-namespace {
-
-static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
-};
-
-}
-
 inline std::string ToString(double value) noexcept {
     if (value == 0.0) {
         return "0";
     }
 
+    // 放在函数内部，首次使用时初始化。不能放在匿名命名空间：单头文件版本中ToString是inline的，
+    // 若引用各编译单元各自一份的对象，则违反ODR，并可能访问到尚未初始化的对象。
+    static const std::tuple<const char *, std::regex> strategies[] = {
+        {"%.16e", std::regex{"\\.?0+(?=e)"}},
+        {"%.16f", std::regex{"\\.?0+(?=$)"}},
+    };
+
     char buf[64];
 
     // 绝对值过大 或者 绝对值过小，应该使用科学计数法来表示
diff --git a/src/tomsolver/config.cpp b/src/tomsolver/config.cpp
index c642420..cf1eb06 100644
--- a/src/tomsolver/config.cpp
+++ b/src/tomsolver/config.cpp
@@ -7,20 +7,18 @@
 
 namespace tomsolver {
 
-namespace {
-
-static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
-};
-
-}
-
 std::string ToString(double value) noexcept {
     if (value == 0.0) {
         return "0";
     }
 
+    // 放在函数内部，首次使用时初始化。不能放在匿名命名空间：单头文件版本中ToString是inline的，
+    // 若引用各编译单元各自一份的对象，则违反ODR，并可能访问到尚未初始化的对象。
+    static const std::tuple<const char *, std::regex> strategies[] = {
+        {"%.16e", std::regex{"\\.?0+(?=e)"}},
+        {"%.16f", std::regex{"\\.?0+(?=$)"}},
+    };
+
     char buf[64];
 
     // 绝对值过大 或者 绝对值过小，应该使用科学计数法来表示
-- 
2.43.0


From 6e12b762232a69f8182a4a976f0e13a39970f329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 24/24] fix: IsIntAndEven was declared but not defined

---
 single/include/tomsolver/tomsolver.h | 5 ++++-
 src/tomsolver/math_operator.cpp      | 4 ++++
 src/tomsolver/math_operator.h        | 1 -
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 03d38f2..650d563 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -110,7 +110,6 @@ inline bool IsFunction(MathOperator op) noexcept;
 
 /**
  * 是整数 且 为偶数
- * FIXME: 超出long long范围的处理
  */
 inline bool IsIntAndEven(double n) noexcept;
 
@@ -1932,6 +1931,10 @@ inline bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+inline bool IsIntAndEven(double n) noexcept {
+    return std::fmod(n, 2.0) == 0.0; // 无穷大和nan的结果为nan，返回false
+}
+
 namespace {
 
 /**
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 184b0e8..9c8d151 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -270,6 +270,10 @@ bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+bool IsIntAndEven(double n) noexcept {
+    return std::fmod(n, 2.0) == 0.0; // 无穷大和nan的结果为nan，返回false
+}
+
 namespace {
 
 /**
diff --git a/src/tomsolver/math_operator.h b/src/tomsolver/math_operator.h
index e51cf1a..049c593 100644
--- a/src/tomsolver/math_operator.h
+++ b/src/tomsolver/math_operator.h
@@ -84,7 +84,6 @@ bool IsFunction(MathOperator op) noexcept;
 
 /**
  * 是整数 且 为偶数
- * FIXME: 超出long long范围的处理
  */
 bool IsIntAndEven(double n) noexcept;
 
-- 
2.43.0

