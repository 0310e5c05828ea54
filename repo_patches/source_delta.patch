From 10db59d6d0d1badbbacd76104b2c4b514eb301cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 01/54] fix: extracting bits up to the width of a bitvector

(eo::extract t i w) where w is exactly the bitwidth of t read one bit past
the end, giving a value of the wrong width (or an assertion failure).
---
 src/literal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index 8d22580..bc4e5b1 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -356,14 +356,14 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
           case Kind::BINARY:
           {
             Integer dsize(args[0]->d_bv.getSize());
-            if (i1.sgn()<0 || i2.sgn()<0 || i1>dsize || dsize.sgn()==0)
+            if (i1.sgn()<0 || i2.sgn()<0 || i1>=dsize || dsize.sgn()==0)
             {
               return Literal(ka, BitVector(0));
             }
             Assert (i1.fitsUnsignedInt() && dsize.fitsUnsignedInt());
             uint32_t v1 = i1.toUnsignedInt();
             uint32_t vs = dsize.toUnsignedInt();
-            uint32_t v2 = i2>dsize ? vs-1 : i2.toUnsignedInt();
+            uint32_t v2 = i2>=dsize ? vs-1 : i2.toUnsignedInt();
             if (v1>v2)
             {
               return Literal(ka, BitVector(0));
-- 
2.43.0


From 23ebc9a17262efc20a080c72ebac8a95cb5eeff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 02/54] fix: eo::to_str does not evaluate on numerals that are
 not code points

The numeral case fell through to the case for rationals.
---
 src/literal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/literal.cpp b/src/literal.cpp
index bc4e5b1..2c43c9f 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -451,6 +451,8 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             }
           }
         }
+        // not a code point, does not evaluate
+        break;
         case Kind::RATIONAL:return Literal(String(args[0]->toString()));
         case Kind::HEXADECIMAL:return Literal(String("#x" + args[0]->toString()));
         case Kind::BINARY:return Literal(String("#b" + args[0]->toString()));
-- 
2.43.0


From f2a591ef33e00388e024a3cb16ad8f4589ee94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 03/54] fix: literal operators applied to the wrong number of
 arguments do not evaluate

The arity was only checked when all arguments were literals, and extract was
accepted with two arguments, hence arguments were read out of bounds.
---
 src/type_checker.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 25de2f5..cf1d8f0 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -196,10 +196,8 @@ bool TypeChecker::checkArity(Kind k, size_t nargs, std::ostream* out)
     case Kind::EVAL_LIST_MINCLUDE:
     case Kind::EVAL_LIST_MEQ:
     case Kind::EVAL_LIST_DIFF:
-    case Kind::EVAL_LIST_INTER: ret = (nargs == 3); break;
-    case Kind::EVAL_EXTRACT:
-      ret = (nargs==3 || nargs==2);
-      break;
+    case Kind::EVAL_LIST_INTER:
+    case Kind::EVAL_EXTRACT: ret = (nargs == 3); break;
     default:
       if (isNaryLiteralOp(k))
       {
@@ -1050,6 +1048,13 @@ Expr TypeChecker::evaluateLiteralOpInternal(
 {
   Assert (!args.empty());
   Trace("type_checker") << "EVALUATE-LIT " << k << " " << args << std::endl;
+  if (!checkArity(k, args.size()))
+  {
+    Warning() << "Wrong number of arguments when applying literal op " << k
+              << ", " << args.size() << " arguments (" << args << ")" << std::endl;
+    // does not evaluate if arity is wrong
+    return d_null;
+  }
   // special cases: ITE may evaluate if non-ground
   switch (k)
   {
@@ -1307,13 +1312,6 @@ Expr TypeChecker::evaluateLiteralOpInternal(
   // if all values, run the literal evaluator
   if (allValues)
   {
-    if (!checkArity(k, args.size()))
-    {
-      Warning() << "Wrong number of arguments when applying literal op " << k
-                << ", " << args.size() << " arguments (" << args << ")" << std::endl;
-      // does not evaluate if arity is wrong
-      return d_null;
-    }
     // evaluate
     Literal eval = Literal::evaluate(k, lits);
     if (eval.getKind()==Kind::NONE)
-- 
2.43.0


From 6a0b6ee711ece532498a8ca9ce3570b52e80b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 04/54] fix: keep checking assumptions against the reference
 after later includes

Every file inclusion reset whether there is a reference input, hence
(reference ...) followed by (include ...), or --reference=X followed by an
input file, silently accepted arbitrary assumptions.
---
 src/main.cpp  | 4 ++++
 src/state.cpp | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index dff12d3..c6074c2 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -149,6 +149,10 @@ int main( int argc, char* argv[] )
   {
     std::string file = includes[i].first;
     bool isInclude = includes[i].second;
+    if (!isInclude && s.hasReference())
+    {
+      EO_FATAL() << "Error: Cannot use more than one reference";
+    }
     // cannot provide reference
     Expr refNf;
     if (!s.includeFile(file, isInclude, !isInclude, refNf))
diff --git a/src/state.cpp b/src/state.cpp
index 39a984e..d0b0c83 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -307,8 +307,12 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return true;
   }
   Assert (!isReference || !d_hasReference);
-  d_hasReference = isReference;
-  d_referenceNf = referenceNf;
+  if (isReference)
+  {
+    // includes that come later do not impact the reference
+    d_hasReference = true;
+    d_referenceNf = referenceNf;
+  }
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From 7b9aad7949b8edea6d7402a3207b2f06842cd5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 05/54] fix: check assume commands in local scopes against the
 reference

An assume command within the scope of assume-push is not discharged by
step-pop, hence it must occur in the reference input like any other.
---
 src/cmd_parser.cpp | 2 +-
 src/state.cpp      | 6 +++---
 src/state.h        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index b0dc1ed..0360c3d 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -117,7 +117,7 @@ bool CmdParser::parseNextCommand()
       // bind the assumption to (pf <proven>).
       Expr pt = d_state.mkProof(proven);
       d_eparser.bind(name, pt);
-      if (!d_state.addAssumption(proven))
+      if (!d_state.addAssumption(proven, tok == Token::ASSUME_PUSH))
       {
         std::stringstream ss;
         ss << "The assumption " << name << " was not part of the referenced assertions";
diff --git a/src/state.cpp b/src/state.cpp
index d0b0c83..8671f63 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -453,13 +453,13 @@ void State::markDeleted(ExprValue* e)
   d_inGarbageCollection = false;
 }
 
-bool State::addAssumption(const Expr& a)
+bool State::addAssumption(const Expr& a, bool isPush)
 {
   d_assumptions.push_back(a);
   if (d_hasReference)
   {
-    // only care if at assumption level zero
-    if (d_assumptionsSizeCtx.empty())
+    // only care if not a local assumption
+    if (!isPush)
     {
       Expr aa = a;
       if (!d_referenceNf.isNull())
diff --git a/src/state.h b/src/state.h
index 7174e27..10dd3e3 100644
--- a/src/state.h
+++ b/src/state.h
@@ -73,8 +73,8 @@ class State
   bool includeFile(const std::string& s, bool isSignature);
   /** include file, possibly as a reference */
   bool includeFile(const std::string& s, bool isSignature, bool isReference, const Expr& referenceNf);
-  /** add assumption */
-  bool addAssumption(const Expr& a);
+  /** add assumption, where isPush is true if it is a local assumption */
+  bool addAssumption(const Expr& a, bool isPush);
   /** add reference assert */
   void addReferenceAssert(const Expr& a);
   /** Set type rule for literal kind k to t */
-- 
2.43.0


From 13e3f3e76a6436d3f40577d5d633f976b58bbb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 06/54] fix: reject push and pop in the scope of a local
 assumption

The matching step-pop popped the scope of the push instead of the one of the
assumption, which left the local assumption usable as a premise.
---
 src/cmd_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 0360c3d..9fba539 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -999,6 +999,11 @@ bool CmdParser::parseNextCommand()
     case Token::PUSH:
     {
       bool isPush = (tok==Token::PUSH);
+      // otherwise, step-pop may not pop the scope of the local assumption
+      if (d_state.getAssumptionLevel()>0)
+      {
+        d_lex.parseError("Push and pop must be done at assumption level zero");
+      }
       tok = d_lex.peekToken();
       size_t num = 1;
       if (tok == Token::INTEGER_LITERAL)
-- 
2.43.0


From c7e170cdb1c1884ac8e146cc4448003e0ee9343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 07/54] fix: reject piped input that ends with an open local
 assumption

This is already the case for inputs read from a file.
---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index c6074c2..dca5ed3 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -180,6 +180,10 @@ int main( int argc, char* argv[] )
     while (p.parseNextCommand())
     {
     }
+    if (s.getAssumptionLevel() != 0)
+    {
+      EO_FATAL() << "Error: the input did not preserve assumption scope.";
+    }
   }
   else
   {
-- 
2.43.0


From 870c0cdb095140cde02f14f09155a876aed4f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 08/54] fix: list operations preserve the order of left
 associative lists

The children of left associative applications are collected from the
outermost one, but were prepended again in that order, which reversed them in
the result of eo::list_concat, eo::list_rev, eo::list_erase and others.
---
 src/type_checker.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index cf1d8f0..67885df 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1025,10 +1025,11 @@ Expr TypeChecker::prependNAryChildren(ExprValue* op,
   if (isLeft)
   {
     ExprValue* c1;
-    for (auto it = hargs.begin(); it != hargs.end(); ++it)
+    // similar to below, the children were collected from the outermost one
+    for (auto rit = hargs.rbegin(); rit != hargs.rend(); ++rit)
     {
       c1 = d_state.mkExprInternal(Kind::APPLY, {op, ret});
-      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *it});
+      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *rit});
     }
   }
   else
-- 
2.43.0


From 03c797128fa733babff6465c731f5ab604713f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 09/54] fix: do not confuse the byte 0xFF in an input file with
 the end of the file

The remainder of the file was ignored, whereas piped input was rejected.
---
 src/lexer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.h b/src/lexer.h
index 30122c8..77fda1a 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -92,7 +92,7 @@ class Lexer
   {
     if (d_bufferPos < d_bufferEnd)
     {
-      d_ch = d_buffer[d_bufferPos];
+      d_ch = static_cast<unsigned char>(d_buffer[d_bufferPos]);
       d_bufferPos++;
     }
     else if (d_isInteractive)
@@ -110,7 +110,7 @@ class Lexer
       }
       else
       {
-        d_ch = d_buffer[0];
+        d_ch = static_cast<unsigned char>(d_buffer[0]);
         d_bufferPos = 1;
       }
     }
-- 
2.43.0


From a22121ad4bac15dab4d6cc4dfb961814e9df0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 10/54] fix: do not drop the character following a keyword of
 length one

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 37278ae..9f97694 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -292,7 +292,7 @@ Token Lexer::computeNextToken()
       {
         parseError("Error expected symbol following :");
       }
-      parseNonEmptyCharList(CharacterClass::SYMBOL);
+      parseCharList(CharacterClass::SYMBOL);
       return Token::KEYWORD;
     default:
       if (isCharacterClass(ch, CharacterClass::DECIMAL_DIGIT))
-- 
2.43.0


From dccebdbba6fe8c701a49c4ee4f0aeb320815b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 11/54] fix: require a digit after the minus sign of decimals
 and rationals

Otherwise e.g. -/5 was a rational literal, which terminated with an uncaught
exception.
---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 9f97694..38a286e 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -411,7 +411,7 @@ Token Lexer::tokenizeCurrentSymbol() const
           {
             continue;
           }
-          else if (i+1<tsize && ret==Token::INTEGER_LITERAL)
+          else if (i>1 && i+1<tsize && ret==Token::INTEGER_LITERAL)
           {
             if (d_token[i]=='.')
             {
-- 
2.43.0


From 8bed5c6054320dca0e03347eea76ace67ec0b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 12/54] fix: reject null characters in quoted symbols and
 string literals

They terminated the token, and hence identified distinct symbols.
---
 src/lexer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 38a286e..797871c 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -235,6 +235,10 @@ Token Lexer::computeNextToken()
         {
           return Token::UNTERMINATED_QUOTED_SYMBOL;
         }
+        else if (ch == 0)
+        {
+          parseError("Null character in quoted symbol");
+        }
         pushToToken(ch);
       } while (ch != '|');
       return Token::QUOTED_SYMBOL;
@@ -272,6 +276,10 @@ Token Lexer::computeNextToken()
         {
           return Token::UNTERMINATED_STRING_LITERAL;
         }
+        else if (ch == 0)
+        {
+          parseError("Null character in string literal");
+        }
         else if (ch == '"')
         {
           pushToToken(ch);
-- 
2.43.0


From d97aa7fd9fc7eeff1c3173b346b4df8f0398d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 13/54] fix: keep control characters such as tabs and newlines
 in string literals

They were dropped, which made distinct string literals identical.
---
 src/util/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/string.cpp b/src/util/string.cpp
index acfb368..134fd07 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -54,8 +54,8 @@ String String::concat(const String &other) const
 
 void String::addCharToInternal(unsigned char ch, std::vector<unsigned>& str)
 {
-  // if not a printable character
-  if (ch > 127 || ch < 32)
+  // if not an ASCII character
+  if (ch > 127)
   {
     std::stringstream serr;
     serr << "Illegal string character: \"" << ch
-- 
2.43.0


From e00517bd252a2d59e90fbae8621bca4219c6323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 14/54] fix: print leading zeroes of hexadecimal values

Hexadecimal values that only differ in their bitwidth were printed in the same
way, also by eo::to_str.
---
 src/util/bitvector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/bitvector.cpp b/src/util/bitvector.cpp
index 69f8541..0f7f92a 100644
--- a/src/util/bitvector.cpp
+++ b/src/util/bitvector.cpp
@@ -36,10 +36,12 @@ Integer BitVector::toInteger() const { return d_value; }
 std::string BitVector::toString(unsigned int base) const
 {
   std::string str = d_value.toString(base);
-  if (base == 2 && d_size > str.size())
+  // the number of digits, including leading zeroes
+  unsigned int ndigits = base == 2 ? d_size : (base == 16 ? (d_size + 3) / 4 : 0);
+  if (ndigits > str.size())
   {
     std::string zeroes;
-    for (unsigned int i = 0; i < d_size - str.size(); ++i)
+    for (unsigned int i = 0; i < ndigits - str.size(); ++i)
     {
       zeroes.append("0");
     }
-- 
2.43.0


From 27232d2b1fd21a04248ebb709fdf701b74d44c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 15/54] fix: removing a deleted term from the term trie
 accessed freed memory

The node was cleared after the subtree that contains it was erased. Moreover,
the erased subtree could include the entries of other terms.
---
 src/expr_trie.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/expr_trie.h b/src/expr_trie.h
index d912c01..a964a81 100644
--- a/src/expr_trie.h
+++ b/src/expr_trie.h
@@ -45,25 +45,21 @@ public:
     for (ExprValue* e : children)
     {
       itet = et->d_children.find(e);
-      if (etd == nullptr)
+      Assert (itet!=et->d_children.end());
+      if (etd == nullptr || et->d_children.size() > 1 || et->d_data != nullptr)
       {
         // etd is the candidate trie to delete from
         etd = et;
         itetd = itet;
       }
-      Assert (itet!=et->d_children.end());
-      if (et->d_children.size() > 1)
-      {
-        etd = nullptr;
-      }
       et = &itet->second;
     }
+    et->d_data = nullptr;
     // delete the subtree for which et->d_data occurs in a single path
-    if (etd!=nullptr)
+    if (etd!=nullptr && et->d_children.empty())
     {
       etd->d_children.erase(itetd);
     }
-    et->d_data = nullptr;
   }
 };
 
-- 
2.43.0


From 00581b23bf46c950d575bb04d80b21162c7649ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 16/54] fix: crash when premise list is empty and its
 constructor has no attribute

---
 src/state.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 8671f63..840c92f 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1509,8 +1509,7 @@ bool State::notifyStep(const std::string& name,
       {
         // the nil terminator if applied to empty list
         AppInfo* aic = getAppInfo(plCons.getValue());
-        Attr ck = aic->d_attrCons;
-        if (isListNilAttr(ck))
+        if (aic != nullptr && isListNilAttr(aic->d_attrCons))
         {
           ap = aic->d_attrConsTerm;
         }
-- 
2.43.0


From 638ba1a6c2e4ef6d23de2e97f0bc7ba5850ebf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 17/54] fix: report the wrong number of arguments of steps of
 nullary rules

Applying a rule without arguments and premises to some, or a rule with
arguments or premises to none, was an assertion failure.
---
 src/state.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 840c92f..e4833ba 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1536,6 +1536,16 @@ bool State::notifyStep(const std::string& name,
       // otherwise ordinary premises
       children.insert(children.end(), premises.begin(), premises.end());
     }
+    bool isNullary = (children[0].getKind() != Kind::PROGRAM_CONST);
+    if (isNullary == (children.size() > 1))
+    {
+      // arguments were provided to a rule taking none, or vice versa
+      if (err)
+      {
+        (*err) << "Wrong number of arguments or premises" << std::endl;
+      }
+      return false;
+    }
     if (children.size() > 1)
     {
       // evaluate the program app
-- 
2.43.0


From 0b1d705f4708cbfe61cb53dc920ddb634c46d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 18/54] fix: statistics and final response referred to deleted
 proof rules

---
 src/state.cpp | 6 ++++++
 src/state.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index e4833ba..46d048a 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1259,6 +1259,12 @@ bool State::bind(const std::string& name, const Expr& e)
   {
     d_plugin->bind(name, e);
   }
+  if (e.getKind() == Kind::PROOF_RULE)
+  {
+    // the final response and the statistics refer to rules that were used, even
+    // if they are no longer in scope
+    d_proofRules.push_back(e);
+  }
   // if using a separate symbol table for rules
   if (d_opts.d_ruleSymTable && e.getKind() == Kind::PROOF_RULE)
   {
diff --git a/src/state.h b/src/state.h
index 10dd3e3..96bbb9d 100644
--- a/src/state.h
+++ b/src/state.h
@@ -396,6 +396,8 @@ class State
   Filepath d_inputFile;
   /** The proof rules marked :sorry */
   std::unordered_set<const ExprValue*> d_pfrSorry;
+  /** Proof rules that have been bound, which are not garbage collected */
+  std::vector<Expr> d_proofRules;
   /** Cache of files included */
   std::set<Filepath> d_includes;
   /** Have we parsed a reference file to check assumptions? */
-- 
2.43.0


From 921be305f59d1c1f21c06f68b43329820406d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 19/54] fix: reset removed builtin symbols and kept declared
 rules, overloads and literal types

---
 src/state.cpp        | 22 +++++++++++++++++++++-
 src/state.h          |  2 ++
 src/type_checker.cpp | 15 ++++++++++-----
 src/type_checker.h   |  2 ++
 4 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 46d048a..20c32ba 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -192,17 +192,37 @@ State::State(Options& opts, Stats& stats)
   // Proof is the return type of terms with kind Kind::PROOF, which is an
   // ordinary type (not available in the parser).
   d_proofType = Expr(mkSymbolInternal(Kind::CONST, "eo::Proof", d_type));
+
+  // remember the builtin symbols, which are preserved by reset
+  d_builtinSymTable = d_symTable;
 }
 
 State::~State() {}
 
 void State::reset()
 {
-  d_symTable.clear();
+  d_symTable = d_builtinSymTable;
+  d_ruleSymTable.clear();
+  d_overloadedDecls.clear();
+  d_overloads.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
+  // the types of literals can be declared again
+  d_tc.resetLiteralTypeRules();
+  std::vector<std::pair<const ExprValue*, Expr>> litTypes;
+  for (const std::pair<const ExprValue* const, Expr>& t : d_typeCache)
+  {
+    if (isLiteral(t.first->getKind()))
+    {
+      litTypes.emplace_back(t.first, t.second);
+    }
+  }
+  for (const std::pair<const ExprValue*, Expr>& t : litTypes)
+  {
+    d_typeCache.erase(t.first);
+  }
   if (d_plugin!=nullptr)
   {
     d_plugin->reset();
diff --git a/src/state.h b/src/state.h
index 96bbb9d..d29d704 100644
--- a/src/state.h
+++ b/src/state.h
@@ -341,6 +341,8 @@ class State
   //--------------------- parsing state
   /** The symbol table, mapping symbols */
   std::map<std::string, Expr> d_symTable;
+  /** The builtin part of the symbol table, which is preserved by reset */
+  std::map<std::string, Expr> d_builtinSymTable;
   /** Symbol table for proof rules, if using separate table */
   std::map<std::string, Expr> d_ruleSymTable;
   /** The (canonical) bound variables for binders */
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 67885df..db74123 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -22,6 +22,16 @@
 namespace ethos {
 
 TypeChecker::TypeChecker(State& s, Options& opts) : d_state(s), d_plugin(nullptr), d_sts(s.getStats())
+{
+  resetLiteralTypeRules();
+  d_statsEnabled = opts.d_stats;
+}
+
+TypeChecker::~TypeChecker()
+{
+}
+
+void TypeChecker::resetLiteralTypeRules()
 {
   std::set<Kind> literalKinds = { Kind::BOOLEAN, Kind::NUMERAL, Kind::RATIONAL, Kind::BINARY, Kind::STRING, Kind::DECIMAL, Kind::HEXADECIMAL };
   // initialize literal kinds 
@@ -29,11 +39,6 @@ TypeChecker::TypeChecker(State& s, Options& opts) : d_state(s), d_plugin(nullptr
   {
     d_literalTypeRules[k] = d_null;
   }
-  d_statsEnabled = opts.d_stats;
-}
-
-TypeChecker::~TypeChecker()
-{
 }
 
 void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
diff --git a/src/type_checker.h b/src/type_checker.h
index 4f04b72..df9e224 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -43,6 +43,8 @@ class TypeChecker
    * Check arity for kind, returns false if k cannot be applied to nargs.
    */
   static bool checkArity(Kind k, size_t nargs, std::ostream* out = nullptr);
+  /** Reset the type rules for literal kinds */
+  void resetLiteralTypeRules();
   /** Set type rule for literal kind k to t */
   void setLiteralTypeRule(Kind k, const Expr& t);
   /**
-- 
2.43.0


From cfa61ae884c3445303d2803f53fcc74b328fa86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 20/54] fix: right and left associative operators applied to
 one argument are partial applications

---
 src/state.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 20c32ba..39be3bb 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1043,6 +1043,11 @@ Expr State::mkApplyAttr(AppInfo* ai,
                         || ai->d_attrCons == Attr::LEFT_ASSOC_NS_NIL);
         bool isNil = (isNsNil || ai->d_attrCons == Attr::RIGHT_ASSOC_NIL
                       || ai->d_attrCons == Attr::LEFT_ASSOC_NIL);
+        if (!isNil && nchild == 2)
+        {
+          // partial application, which is not impacted by the attribute
+          break;
+        }
         size_t i = 1;
         ExprValue* curr = vchildren[isLeft ? i : nchild - i];
         std::vector<ExprValue*> cc{hd, nullptr, nullptr};
@@ -1549,6 +1554,14 @@ bool State::notifyStep(const std::string& name,
           return false;
         }
       }
+      else if (achildren.size() == 2
+               && (getConstructorKind(plCons.getValue()) == Attr::RIGHT_ASSOC
+                   || getConstructorKind(plCons.getValue())
+                          == Attr::LEFT_ASSOC))
+      {
+        // a single premise, which is not a partial application
+        ap = achildren[1];
+      }
       else
       {
         ap = mkExpr(Kind::APPLY, achildren);
-- 
2.43.0


From f2b2e5e046de9a341185a4292a7878d58ac4840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 21/54] fix: list operators do not evaluate on terms that
 failed to evaluate

---
 src/type_checker.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index db74123..808b5ed 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1335,6 +1335,15 @@ Expr TypeChecker::evaluateLiteralOpInternal(
   {
     return d_null;
   }
+  // list operations do not evaluate if an argument is not a value, e.g. if it
+  // is a list having an element that failed to evaluate
+  for (size_t i = 1, nargs = args.size(); i < nargs; i++)
+  {
+    if (args[i]->isEvaluatable())
+    {
+      return d_null;
+    }
+  }
   // otherwise, maybe a list operation
   ExprValue* op = args[0];
   // strip off parameterized to look up AppInfo
-- 
2.43.0


From d0e23bad152cf2b68130c25fbbbd1962fc13ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 22/54] fix: evaluate ground right hand sides of program cases

---
 src/type_checker.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 808b5ed..7d3d0ee 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -695,7 +695,12 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
                 // see if we evaluate
                 evaluated = evaluateProgramInternal(cchildren, newCtx);
                 //std::cout << "Evaluate prog returned " << evaluated << std::endl;
-                if (evaluated.isNull() || evaluated.isGround() || newCtx.empty())
+                // note that a ground term may still have to be evaluated, e.g.
+                // if it applies a program that was not yet defined when the
+                // term was constructed
+                if (evaluated.isNull()
+                    || (!evaluated.isEvaluatable()
+                        && (evaluated.isGround() || newCtx.empty())))
                 {
                   // if the evaluation can be shortcircuited, don't need to
                   // push a context
-- 
2.43.0


From ef401ab18cf1440499bcc5a862d390b03adf7282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:53 +0000
Subject: [PATCH 23/54] fix: do not decide that unfinished programs fail while
 reading their cases

---
 src/cmd_parser.cpp   |  2 ++
 src/state.cpp        | 33 +++++++++++++++++++++++++++++++++
 src/state.h          | 14 ++++++++++++++
 src/type_checker.cpp | 19 +++++++++++++++++++
 4 files changed, 68 insertions(+)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 9fba539..7c80cf2 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -821,7 +821,9 @@ bool CmdParser::parseNextCommand()
       if (tok!=Token::RPAREN)
       {
         // parse the body
+        d_state.setDefiningProgram(true);
         std::vector<Expr> pchildren = d_eparser.parseExprPairList();
+        d_state.setDefiningProgram(false);
         if (pchildren.empty())
         {
           d_lex.parseError("Expected non-empty list of cases");
diff --git a/src/state.cpp b/src/state.cpp
index 39be3bb..9b56658 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -85,6 +85,7 @@ State::State(Options& opts, Stats& stats)
     : d_hashCounter(0),
       d_hasReference(false),
       d_inGarbageCollection(false),
+      d_definingProgram(false),
       d_opts(opts),
       d_stats(stats),
       d_tc(*this, opts),
@@ -1779,6 +1780,38 @@ void State::defineProgram(const Expr& v, const Expr& prog)
   }
 }
 
+void State::setDefiningProgram(bool isDefining)
+{
+  d_definingProgram = isDefining;
+}
+
+bool State::hasUnfinishedProgram(const std::vector<ExprValue*>& es) const
+{
+  if (!d_definingProgram)
+  {
+    return false;
+  }
+  std::unordered_set<ExprValue*> visited;
+  std::vector<ExprValue*> visit(es.begin(), es.end());
+  while (!visit.empty())
+  {
+    ExprValue* cur = visit.back();
+    visit.pop_back();
+    if (!cur->isEvaluatable() || !visited.insert(cur).second)
+    {
+      continue;
+    }
+    if (cur->getKind() == Kind::PROGRAM_CONST
+        && getConstructorKind(cur) == Attr::NONE)
+    {
+      return true;
+    }
+    const std::vector<ExprValue*>& children = cur->getChildren();
+    visit.insert(visit.end(), children.begin(), children.end());
+  }
+  return false;
+}
+
 void State::define(const std::string& name, const Expr& e)
 {
   if (d_plugin != nullptr)
diff --git a/src/state.h b/src/state.h
index d29d704..4e78bae 100644
--- a/src/state.h
+++ b/src/state.h
@@ -91,6 +91,18 @@ class State
   bool markConstructorKind(const Expr& v, Attr a, const Expr& cons);
   /** Define program, where v is PROGRAM_CONST and prog is PROGRAM. */
   void defineProgram(const Expr& v, const Expr& prog);
+  /**
+   * Set whether we are currently constructing the cases of a program. While
+   * this is the case, terms whose evaluation depends on whether an argument
+   * fails to evaluate are not evaluated if the argument applies a program that
+   * has not been defined yet.
+   */
+  void setDefiningProgram(bool isDefining);
+  /**
+   * Are we constructing the cases of a program, and does a term in es apply a
+   * program that has not been defined yet?
+   */
+  bool hasUnfinishedProgram(const std::vector<ExprValue*>& es) const;
   /** Define, called when a define command is parsed.
    * @param name The name of the define.
    * @param e The expression name is defined to be.
@@ -415,6 +427,8 @@ class State
   std::vector<ExprValue*> d_toDelete;
   /** Are we in garbage collection? */
   bool d_inGarbageCollection;
+  /** Are we constructing the cases of a program? */
+  bool d_definingProgram;
   //--------------------- utilities
   /** Options */
   Options& d_opts;
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 7d3d0ee..c24428e 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1113,6 +1113,25 @@ Expr TypeChecker::evaluateLiteralOpInternal(
     return d_null;
   }
   switch (k)
+  {
+    case Kind::EVAL_IS_OK:
+    case Kind::EVAL_IS_EQ:
+    case Kind::EVAL_IS_Z:
+    case Kind::EVAL_IS_Q:
+    case Kind::EVAL_IS_BIN:
+    case Kind::EVAL_IS_STR:
+    case Kind::EVAL_IS_BOOL:
+    case Kind::EVAL_IS_VAR:
+      // These evaluate even if an argument failed to evaluate. However, an
+      // argument does not fail only since it applies a program we are defining.
+      if (d_state.hasUnfinishedProgram(args))
+      {
+        return d_null;
+      }
+      break;
+    default: break;
+  }
+  switch (k)
   {
     case Kind::EVAL_IS_OK:
     {
-- 
2.43.0


From 7f3e3fa5f9a70b0beff1d5c52d44ed9720cabcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 24/54] fix: applying a program that is only forward declared
 failed an assertion

---
 src/type_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index c24428e..55206ef 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -907,7 +907,7 @@ Expr TypeChecker::evaluateProgramInternal(
     RuleStat* ps = &d_sts.d_pstats[hd];
     ps->d_count++;
   }
-  Assert(!prog.isNull());
+  // note the program is null if it has only been forward declared
   if (!prog.isNull())
   {
     Trace("type_checker") << "INTERPRET program " << children << std::endl;
-- 
2.43.0


From d360713dc2417a3cba76135938797cb2f6587ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 25/54] fix: the hash of a term changed when the term was
 garbage collected

---
 src/state.cpp | 2 ++
 src/state.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 9b56658..8cbefd7 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1666,6 +1666,8 @@ size_t State::getHash(const ExprValue* e)
   d_hashCounter++;
   size_t ret = d_hashCounter;
   d_hashMap[e] = ret;
+  // keep the expression, since its hash should not change if it is created again
+  d_hashed.emplace_back(const_cast<ExprValue*>(e));
   return ret;
 }
 
diff --git a/src/state.h b/src/state.h
index 4e78bae..aeb4b1f 100644
--- a/src/state.h
+++ b/src/state.h
@@ -390,6 +390,8 @@ class State
   std::map<const ExprValue*, AppInfo> d_appData;
   /** Map from expressions to hash */
   std::map<const ExprValue*, size_t> d_hashMap;
+  /** Expressions with a hash, which are not garbage collected */
+  std::vector<Expr> d_hashed;
   /** Mapping expressions to types */
   std::map<const ExprValue*, Expr> d_typeCache;
   /** Hash counter */
-- 
2.43.0


From c3b579f450f071c376319b7395cec386df83cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 26/54] fix: symbols stayed marked as overloaded after leaving
 the scope overloading them

---
 src/state.cpp | 40 ++++++++++++++++++++++++++++++++--------
 src/state.h   |  6 ++++++
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 8cbefd7..abaf076 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -690,12 +690,12 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
         // must call mkExpr again, since we may auto-evaluate
         return mkExpr(ai->d_kind, achildren);
       }
-      if (ai->d_isOverloaded)
+      const std::vector<Expr>* ov = getOverloads(ai, vchildren[0]);
+      if (ov != nullptr)
       {
         Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
-        Expr ret = getOverloadInternal(ov, children, nullptr, true);
+        Assert(ov->size() >= 2);
+        Expr ret = getOverloadInternal(*ov, children, nullptr, true);
         if (!ret.isNull())
         {
           Trace("overload") << "...found overload " << ret << std::endl;
@@ -839,13 +839,13 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       {
         dummyChildren.emplace_back(mkSymbol(Kind::CONST, "tmp", t));
       }
-      if (ai!=nullptr && ai->d_isOverloaded)
+      const std::vector<Expr>* ov = getOverloads(ai, vchildren[0]);
+      if (ov != nullptr)
       {
         Trace("overload") << "...overloaded" << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
+        Assert(ov->size() >= 2);
         reto = getOverloadInternal(
-            ov, dummyChildren, ftype.second.getValue(), false);
+            *ov, dummyChildren, ftype.second.getValue(), false);
       }
       else
       {
@@ -1856,6 +1856,30 @@ bool State::markConstructorKind(const Expr& v, Attr a, const Expr& cons)
   return true;
 }
 
+const std::vector<Expr>* State::getOverloads(const AppInfo* ai,
+                                             const ExprValue* e) const
+{
+  if (ai == nullptr || !ai->d_isOverloaded)
+  {
+    return nullptr;
+  }
+  std::map<std::string, std::vector<Expr>>::const_iterator it =
+      d_overloads.find(ai->d_overloadName);
+  if (it == d_overloads.end())
+  {
+    return nullptr;
+  }
+  // the symbol may have been overloaded in a scope that was popped
+  for (const Expr& o : it->second)
+  {
+    if (o.getValue() == e)
+    {
+      return &it->second;
+    }
+  }
+  return nullptr;
+}
+
 Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
                                 const std::vector<Expr>& children,
                                 const ExprValue* retType,
diff --git a/src/state.h b/src/state.h
index aeb4b1f..0362b0b 100644
--- a/src/state.h
+++ b/src/state.h
@@ -321,6 +321,12 @@ class State
                               const Expr& type);
   /** Make literal internal */
   ExprValue* mkLiteralInternal(Literal& l);
+  /**
+   * Get the overloads in scope of a symbol with the given application info, or
+   * nullptr if it is not (or no longer) overloaded.
+   */
+  const std::vector<Expr>* getOverloads(const AppInfo* ai,
+                                        const ExprValue* e) const;
   /**
    * Get overload internal. This determines which one of the operators
    * in overloads (if any) should be applied in the Kind::APPLY we are
-- 
2.43.0


From 603e4c1af06c11b6189571d4dcd87014de8a6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 27/54] fix: arguments of define-fun in reference files are
 variables of their reference assertion

---
 src/cmd_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 7c80cf2..2f9895f 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -577,8 +577,10 @@ bool CmdParser::parseNextCommand()
       std::vector<Expr> impls;
       std::vector<Expr> opaques;
       std::map<ExprValue*, AttrMap> pattrMap;
-      std::vector<Expr> vars =
-          d_eparser.parseAndBindSortedVarList(Kind::LAMBDA, pattrMap);
+      // The arguments of define-fun are variables, since its reference assertion
+      // is stated in terms of a binder.
+      std::vector<Expr> vars = d_eparser.parseAndBindSortedVarList(
+          tok == Token::DEFINE_FUN ? Kind::NONE : Kind::LAMBDA, pattrMap);
       if (vars.size() < pattrMap.size())
       {
         // If there were implicit variables, we go back and refine what is
-- 
2.43.0


From 7b15d1193dbb75ce1ce04248d0d62115e8c7a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:59 +0000
Subject: [PATCH 28/54] fix: opaque arguments occurring in the types of later
 opaque arguments were not matched

---
 src/cmd_parser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 2f9895f..413448e 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -182,10 +182,15 @@ bool CmdParser::parseNextCommand()
           Expr p = params[ii];
           Expr pt = d_tc.getType(p);
           Expr qt;
-          // Check if the parameter is contained in the return type. If so,
-          // then it must be quoted.
+          // Check if the parameter is contained in the return type, or in the
+          // type of a later opaque argument. If so, then it must be quoted.
           std::unordered_set<const ExprValue*> vp{p.getValue()};
-          if (Expr::hasVariable(t, vp))
+          bool isQuoted = Expr::hasVariable(t, vp);
+          for (const Expr& oa : opaqueArgs)
+          {
+            isQuoted = isQuoted || Expr::hasVariable(oa, vp);
+          }
+          if (isQuoted)
           {
             // If the type of the parameter is non-ground, then we throw an
             // error.
-- 
2.43.0


From 2c228fb42f53a62e8bfe4b759855e0a462c1290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 29/54] fix: function types with arguments or results that are
 not types were accepted

---
 src/type_checker.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 55206ef..be2125d 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -250,9 +250,25 @@ Expr TypeChecker::getTypeInternal(ExprValue* e, std::ostream* out)
       Assert(!ret.isNull());
       return d_state.mkFunctionType(args, ret);
     }
+    case Kind::FUNCTION_TYPE:
+      // the argument types and the return type must be types
+      for (ExprValue* c : e->d_children)
+      {
+        ExprValue* ct = d_state.lookupType(c);
+        Assert(ct != nullptr);
+        if (c->getKind() != Kind::QUOTE_TYPE && ct->getKind() != Kind::TYPE
+            && ct->isGround() && c->isGround())
+        {
+          if (out)
+          {
+            (*out) << "Non-type " << Expr(c) << " in function type";
+          }
+          return d_null;
+        }
+      }
+      return d_state.mkType();
     case Kind::TYPE:
     case Kind::BOOL_TYPE:
-    case Kind::FUNCTION_TYPE:
     case Kind::PROGRAM_TYPE:
     case Kind::ANY: return d_state.mkType();
     case Kind::PROOF:
-- 
2.43.0


From 8411d4fdbdf3247ab90dce37b887a57e474e7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 30/54] fix: proof rules declared in a local scope failed an
 internal assertion and outlived it

---
 src/state.cpp | 15 +++++++++++++--
 src/state.h   |  2 ++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index abaf076..ae099be 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -204,6 +204,7 @@ void State::reset()
 {
   d_symTable = d_builtinSymTable;
   d_ruleSymTable.clear();
+  d_ruleDecls.clear();
   d_overloadedDecls.clear();
   d_overloads.clear();
   d_assumptions.clear();
@@ -280,6 +281,13 @@ void State::popScope()
     d_symTable.erase(d_decls[i]);
   }
   d_decls.resize(lastSize);
+  // unbind the rules of the scope
+  while (!d_ruleDecls.empty()
+         && d_ruleDecls.back().second > d_declsSizeCtx.size())
+  {
+    d_ruleSymTable.erase(d_ruleDecls.back().first);
+    d_ruleDecls.pop_back();
+  }
 }
 
 void State::pushAssumptionScope()
@@ -1294,13 +1302,16 @@ bool State::bind(const std::string& name, const Expr& e)
   // if using a separate symbol table for rules
   if (d_opts.d_ruleSymTable && e.getKind() == Kind::PROOF_RULE)
   {
-    // don't bind at non-global scope
-    Assert (d_declsSizeCtx.empty());
     if (d_ruleSymTable.find(name)!=d_ruleSymTable.end())
     {
       return false;
     }
     d_ruleSymTable[name] = e;
+    // only have to remember if not at global scope
+    if (!d_declsSizeCtx.empty())
+    {
+      d_ruleDecls.emplace_back(name, d_declsSizeCtx.size());
+    }
     return true;
   }
   // otherwise use the main symbol table
diff --git a/src/state.h b/src/state.h
index 0362b0b..4e67619 100644
--- a/src/state.h
+++ b/src/state.h
@@ -363,6 +363,8 @@ class State
   std::map<std::string, Expr> d_builtinSymTable;
   /** Symbol table for proof rules, if using separate table */
   std::map<std::string, Expr> d_ruleSymTable;
+  /** The proof rules bound in non-global scopes, with the scope level */
+  std::vector<std::pair<std::string, size_t>> d_ruleDecls;
   /** The (canonical) bound variables for binders */
   std::map<std::pair<std::string, const ExprValue*>, Expr> d_boundVars;
   /**
-- 
2.43.0


From c86a9da129f026276378155b2c5b011f86c93c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 31/54] fix: expand macros whose name is overloaded

---
 src/state.cpp | 38 +++++++++++++++++++++++---------------
 src/state.h   |  6 +-----
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index ae099be..dace99a 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -703,14 +703,20 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       {
         Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
         Assert(ov->size() >= 2);
-        Expr ret = getOverloadInternal(*ov, children, nullptr, true);
-        if (!ret.isNull())
+        Expr op = getOverloadInternal(*ov, children, nullptr);
+        if (!op.isNull())
         {
-          Trace("overload") << "...found overload " << ret << std::endl;
-          return ret;
+          Trace("overload") << "...found overload " << op << std::endl;
+          // apply the overload, which may be e.g. a macro that is expanded
+          hd = op.getValue();
+          vchildren[0] = hd;
+          ai = getAppInfo(hd);
+        }
+        else
+        {
+          Warning() << "No overload found when constructing application "
+                    << children << std::endl;
         }
-        Warning() << "No overload found when constructing application "
-                  << children << std::endl;
       }
       // Compute the "constructor term" for the operator, which may involve
       // type inference. We store the constructor term in consTerm and operator
@@ -718,11 +724,14 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       // (prior to resolution) was PARAMETERIZED. So, for example, applying
       // `bvor` to `a` of type `(BitVec 4)` results in
       //   consTerm := #b0000.
-      Expr consTerm = d_tc.computeConstructorTermInternal(ai, children);
-      Expr ret = mkApplyAttr(ai, vchildren, consTerm);
-      if (!ret.isNull())
+      if (ai != nullptr)
       {
-        return ret;
+        Expr consTerm = d_tc.computeConstructorTermInternal(ai, children);
+        Expr ret = mkApplyAttr(ai, vchildren, consTerm);
+        if (!ret.isNull())
+        {
+          return ret;
+        }
       }
     }
     Kind hk = hd->getKind();
@@ -853,13 +862,13 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
         Trace("overload") << "...overloaded" << std::endl;
         Assert(ov->size() >= 2);
         reto = getOverloadInternal(
-            *ov, dummyChildren, ftype.second.getValue(), false);
+            *ov, dummyChildren, ftype.second.getValue());
       }
       else
       {
         Trace("overload") << "...not overloaded" << std::endl;
         reto = getOverloadInternal(
-            {children[0]}, dummyChildren, ftype.second.getValue(), false);
+            {children[0]}, dummyChildren, ftype.second.getValue());
       }
       if (!reto.isNull())
       {
@@ -1893,8 +1902,7 @@ const std::vector<Expr>* State::getOverloads(const AppInfo* ai,
 
 Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
                                 const std::vector<Expr>& children,
-                                const ExprValue* retType,
-                                bool retApply)
+                                const ExprValue* retType)
 {
   Assert (!overloads.empty());
   Trace("overload") << "Get overload" << std::endl;
@@ -1933,7 +1941,7 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     {
       Trace("overload") << "...return success" << std::endl;
       // return the operator, do not check the remainder
-      return retApply ? x : overloads[ii];
+      return overloads[ii];
     }
   }
   // otherwise, none found, return null
diff --git a/src/state.h b/src/state.h
index 4e67619..03005a1 100644
--- a/src/state.h
+++ b/src/state.h
@@ -336,17 +336,13 @@ class State
    * construct. This includes a head operator.
    * @param retType If non-null, this is required return type of the
    * application.
-   * @param retApply If true, we return the application of the
-   * appropriate overloaded constructor to children; otherwise we return the
-   * overloaded constructor itself.
    * @return If possible, one of the elements of overloads that meets
    * the above requirements. If multiple are possible, we return the
    * first only. If none are possible, we return the null expression.
    */
   Expr getOverloadInternal(const std::vector<Expr>& overloads,
                            const std::vector<Expr>& children,
-                           const ExprValue* retType = nullptr,
-                           bool retApply = false);
+                           const ExprValue* retType = nullptr);
   /** Get the internal data for expression e. */
   AppInfo* getAppInfo(const ExprValue* e);
   const AppInfo* getAppInfo(const ExprValue* e) const;
-- 
2.43.0


From 3f9ecafbe1e599da20190f4d4d5abb800b34a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 32/54] fix: eo::as did not find overloads of non-function type

---
 src/state.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index dace99a..d79d91f 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1928,7 +1928,12 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
       Expr consTerm = d_tc.computeConstructorTermInternal(ai, children);
       x = mkApplyAttr(ai, vchildren, consTerm);
     }
-    if (x.isNull())
+    if (vchildren.size() == 1)
+    {
+      // the symbol itself, e.g. for (eo::as c T) where T is not a function type
+      x = hde;
+    }
+    else if (x.isNull())
     {
       x = Expr(vchildren.size() > 2 ? mkApplyInternal(vchildren)
                                     : mkExprInternal(Kind::APPLY, vchildren));
-- 
2.43.0


From 1bdc993a3d3eaf2ce3fab036e655db5af7ad8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 33/54] fix: as did not consider overloaded ambiguous symbols

---
 src/state.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index d79d91f..66ee72f 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -828,12 +828,29 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
   else if (k == Kind::AS_RETURN)
   {
     // (as nil (List Int)) --> (_ nil (List Int))
-    Attr ck = getConstructorKind(vchildren[0]);
-    if ((ck == Attr::AMB_DATATYPE_CONSTRUCTOR || ck == Attr::AMB)
-        && children.size() == 2)
+    // where if the symbol is overloaded, we use the most recent one for which
+    // this is well typed.
+    std::vector<Expr> syms{children[0]};
+    const std::vector<Expr>* ov =
+        getOverloads(getAppInfo(vchildren[0]), vchildren[0]);
+    if (ov != nullptr)
     {
-      Trace("overload") << "...type arg for ambiguous constructor" << std::endl;
-      return mkExpr(Kind::APPLY_OPAQUE, {children[0], children[1]});
+      syms.assign(ov->rbegin(), ov->rend());
+    }
+    for (const Expr& sym : syms)
+    {
+      Attr ck = getConstructorKind(sym.getValue());
+      if ((ck == Attr::AMB_DATATYPE_CONSTRUCTOR || ck == Attr::AMB)
+          && children.size() == 2)
+      {
+        Trace("overload") << "...type arg for ambiguous constructor"
+                          << std::endl;
+        Expr ret = mkExpr(Kind::APPLY_OPAQUE, {sym, children[1]});
+        if (ov == nullptr || !d_tc.getType(ret).isNull())
+        {
+          return ret;
+        }
+      }
     }
     // note we don't support other uses of `as` for symbol disambiguation yet,
     // we fallthrough and construct the bogus term of kind AS_RETURN.
-- 
2.43.0


From a018912b2fde15152b842235616bf36f48eb0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 34/54] fix: nil terminators of overloaded parametric operators
 were computed for the wrong overload

---
 src/state.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 66ee72f..308b654 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -726,7 +726,10 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       //   consTerm := #b0000.
       if (ai != nullptr)
       {
-        Expr consTerm = d_tc.computeConstructorTermInternal(ai, children);
+        // note the head may be an overload of children[0]
+        std::vector<Expr> ochildren = children;
+        ochildren[0] = Expr(hd);
+        Expr consTerm = d_tc.computeConstructorTermInternal(ai, ochildren);
         Expr ret = mkApplyAttr(ai, vchildren, consTerm);
         if (!ret.isNull())
         {
@@ -1942,7 +1945,9 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     if (ai != nullptr)
     {
       Trace("overload") << "...has property " << ai->d_attrCons << std::endl;
-      Expr consTerm = d_tc.computeConstructorTermInternal(ai, children);
+      std::vector<Expr> ochildren = children;
+      ochildren[0] = hde;
+      Expr consTerm = d_tc.computeConstructorTermInternal(ai, ochildren);
       x = mkApplyAttr(ai, vchildren, consTerm);
     }
     if (vchildren.size() == 1)
-- 
2.43.0


From 9b4ac4c8843d9232b3720ed9ba21ccfc27d36304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 35/54] fix: a parametric datatype declared by declare-datatype
 was bound in the scope of its parameters only

---
 src/expr_parser.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 6b26697..434d7e6 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -758,12 +758,23 @@ bool ExprParser::parseDatatypesDef(
     if (tok == Token::PAR)
     {
       pushedScope = true;
-      d_state.pushScope();
       std::vector<std::string> symList = parseSymbolList();
       if (symList.empty())
       {
         d_lex.parseError("Expected non-empty parameter list");
       }
+      if (i >= arities.size())
+      {
+        // if the arity is not yet fixed, bind it now, outside of the scope of
+        // the parameters
+        Expr t = d_state.mkTypeConstant(dnames[i], symList.size());
+        if (!d_state.bind(dnames[i], t))
+        {
+          return false;
+        }
+        dtlist.push_back(t);
+      }
+      d_state.pushScope();
       // parameters are type variables
       for (const std::string& sym : symList)
       {
@@ -781,10 +792,10 @@ bool ExprParser::parseDatatypesDef(
       // we will parse the parentheses-enclosed construct list below
       d_lex.reinsertToken(Token::LPAREN);
     }
-    if (i >= arities.size())
+    if (i >= dtlist.size())
     {
-      // if the arity is not yet fixed, bind it now
-      Expr t = d_state.mkTypeConstant(dnames[i], params.size());
+      // if the arity is not yet fixed and there are no parameters, bind it now
+      Expr t = d_state.mkTypeConstant(dnames[i], 0);
       // bind
       if (!d_state.bind(dnames[i], t))
       {
@@ -792,7 +803,7 @@ bool ExprParser::parseDatatypesDef(
       }
       dtlist.push_back(t);
     }
-    else if (arities[i] >= 0 && params.size() != arities[i])
+    else if (i < arities.size() && params.size() != arities[i])
     {
       // if the arity was fixed by prelude and is not equal to the number of
       // parameters
-- 
2.43.0


From 98e506d31ec3ff677b77cbcf41f3cfc392ade510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 36/54] fix: declare-datatypes accepted fewer datatypes than it
 names

---
 src/expr_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 434d7e6..278b5e9 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -837,7 +837,7 @@ bool ExprParser::parseDatatypesDef(
     tok = d_lex.nextToken();
     i++;
   }
-  if (dtlist.size() != dnames.size())
+  if (i != dnames.size())
   {
     d_lex.unexpectedTokenError(tok, "Wrong number of datatypes provided.");
   }
-- 
2.43.0


From 46a2c5cfb5b194e42d498814104e14a871d96198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 37/54] fix: double quotes were not escaped when printing
 string literals

---
 src/expr.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 9f32d9b..8fcc553 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -197,6 +197,21 @@ size_t Expr::getFunctionArity() const
   return ftype.first.size();
 }
 
+/**
+ * SMT-LIB 2 quoting for string literals
+ */
+std::string quoteString(const std::string& s)
+{
+  std::string ret("\"");
+  for (char c : s)
+  {
+    // "" is the escape sequence for "
+    ret.append(c == '"' ? 2 : 1, c);
+  }
+  ret.push_back('"');
+  return ret;
+}
+
 /**
  * SMT-LIB 2 quoting for symbols
  */
@@ -347,7 +362,7 @@ void Expr::printDebugInternal(const Expr& e,
                 os << "#b" << l->toString();
               }
               break;
-            case Kind::STRING:os << "\"" << l->toString() << "\"";break;
+            case Kind::STRING: os << quoteString(l->toString()); break;
             case Kind::DECIMAL:
               // currently don't have a way to print decimals natively, just
               // use attribute
@@ -378,7 +393,7 @@ void Expr::printDebugInternal(const Expr& e,
         Expr tt(ExprValue::d_state->lookupType(cur.first));
         const Literal* l = cur.first->asLiteral();
         Assert(l != nullptr);
-        os << "(eo::var \"" << l->toString() << "\" ";
+        os << "(eo::var " << quoteString(l->toString()) << " ";
         visit.back().second++;
         visit.emplace_back(tt.getValue(), 0);
       }
-- 
2.43.0


From 513f0939ba7b7b0ccb5f97fbc849ac52cf46f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 38/54] fix: quoted symbols that look like negative literals
 were printed without quotes

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 8fcc553..c5242b4 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -232,7 +232,9 @@ std::string quoteSymbol(const std::string& s)
   if (s.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
                           "0123456789~!@$%^&*_-+=<>.?/")
           == std::string::npos
-      && (s[0] < '0' || s[0] > '9'))
+      && (s[0] < '0' || s[0] > '9')
+      // must not be read as a negative literal
+      && (s[0] != '-' || s.size() == 1 || s[1] < '0' || s[1] > '9'))
   {
     return s;
   }
-- 
2.43.0


From 719e475e8228b9287854ba9c3dcfeced62de92ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 39/54] fix: a closing parenthesis in place of a term read from
 an empty parse stack

---
 src/expr_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 278b5e9..404b0eb 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -236,13 +236,13 @@ Expr ExprParser::parseExpr()
       // ------------------- close paren
       case Token::RPAREN:
       {
-        StackFrame& sf = pstack.back();
         // should only be here if we are expecting arguments
-        if (pstack.empty() || sf.d_ctx != ParseCtx::NEXT_ARG)
+        if (pstack.empty() || pstack.back().d_ctx != ParseCtx::NEXT_ARG)
         {
           d_lex.unexpectedTokenError(
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
+        StackFrame& sf = pstack.back();
         // Construct the application term specified by tstack.back()
         ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
         //typeCheck(ret);
-- 
2.43.0


From b8b019fcad8b07ccb9572a15478cda24c53ec739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 40/54] fix: negative or too large numerals were accepted as
 arities and numbers of scopes

---
 src/expr_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 404b0eb..fee9c43 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -939,6 +939,11 @@ uint32_t ExprParser::tokenStrToUnsigned()
   std::stringstream ss;
   ss << d_lex.tokenStr();
   ss >> result;
+  // note that extraction into an unsigned integer accepts negative numerals
+  if (ss.fail() || token[0] == '-')
+  {
+    d_lex.parseError("Expected a non-negative 32-bit numeral");
+  }
   return result;
 }
 
-- 
2.43.0


From ad97ba4697e9376742ba8f9c1a1c3c2a18068e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 41/54] fix: type rules of literals that depend on the type of
 the literal overflowed the stack

---
 src/type_checker.cpp | 8 +++++++-
 src/type_checker.h   | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index be2125d..c30e810 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -87,8 +87,14 @@ Expr TypeChecker::getOrSetLiteralTypeRule(Kind k, ExprValue* self)
   {
     Expr eself = self == nullptr ? d_state.mkAny() : Expr(self);
     Ctx ctx;
+    // the type of a literal cannot depend on itself
+    if (!d_literalTypeSelf.insert(eself.getValue()).second)
+    {
+      return d_null;
+    }
     ctx[d_state.mkSelf().getValue()] = eself.getValue();
-    return evaluate(tp.getValue(), ctx);
+    tp = evaluate(tp.getValue(), ctx);
+    d_literalTypeSelf.erase(eself.getValue());
   }
   return tp;
 }
diff --git a/src/type_checker.h b/src/type_checker.h
index df9e224..b611b2a 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -188,6 +188,8 @@ class TypeChecker
   Plugin * d_plugin;
   /** Mapping literal kinds to type rules */
   std::map<Kind, Expr> d_literalTypeRules;
+  /** The literals whose type is being computed from a rule using eo::self */
+  std::set<const ExprValue*> d_literalTypeSelf;
   /** The null expression */
   Expr d_null;
   Expr d_negOne;
-- 
2.43.0


From 882a23ac95e1e2e39ed2e955f88b0d61c75f02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 42/54] fix: builtin operators applied to no arguments crashed
 the checker

---
 src/expr_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index fee9c43..d6cca11 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -243,6 +243,12 @@ Expr ExprParser::parseExpr()
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
         StackFrame& sf = pstack.back();
+        // builtin operators cannot be applied to no arguments
+        if (sf.d_args.size() == 1
+            && sf.d_args[0].getKind() == Kind::BUILTIN_CONST)
+        {
+          d_lex.parseError("Expected an argument to a builtin operator");
+        }
         // Construct the application term specified by tstack.back()
         ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
         //typeCheck(ret);
-- 
2.43.0


From f408c385ad689e13392803d9934cb6f7eea17ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 43/54] fix: a file given by several paths was included several
 times

---
 src/state.cpp           |  9 ++-------
 src/util/filesystem.cpp | 18 ++++++++++++++++++
 src/util/filesystem.h   |  6 ++++++
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 308b654..2a22a34 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -380,13 +380,8 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
 
 bool State::markIncluded(const Filepath& s)
 {
-  std::set<Filepath>::iterator it = d_includes.find(s);
-  if (it != d_includes.end())
-  {
-    return false;
-  }
-  d_includes.insert(s);
-  return true;
+  // the same file may be given by different paths
+  return d_includes.insert(s.resolve()).second;
 }
 
 void State::markDeleted(ExprValue* e)
diff --git a/src/util/filesystem.cpp b/src/util/filesystem.cpp
index b9de792..2e204bf 100644
--- a/src/util/filesystem.cpp
+++ b/src/util/filesystem.cpp
@@ -8,6 +8,8 @@
  ******************************************************************************/
 #include "util/filesystem.h"
 
+#include <stdlib.h>
+
 #include <fstream>
 #include <sstream>
 #include <vector>
@@ -185,6 +187,22 @@ void Filepath::makeCanonical()
 #endif
 }
 
+Filepath Filepath::resolve() const
+{
+#ifndef USE_CPP_FILESYSTEM
+  char* path = ::realpath(rawPath.c_str(), nullptr);
+  if (path == nullptr)
+  {
+    return *this;
+  }
+  Filepath resolved(path);
+  free(path);
+  return resolved;
+#else
+  return Filepath(std::filesystem::canonical(rawPath));
+#endif
+}
+
 Filepath Filepath::parentPath() const
 {
 #ifndef USE_CPP_FILESYSTEM
diff --git a/src/util/filesystem.h b/src/util/filesystem.h
index 6a10fdb..f628bd9 100644
--- a/src/util/filesystem.h
+++ b/src/util/filesystem.h
@@ -73,6 +73,12 @@ class Filepath
    */
   void makeCanonical();
 
+  /**
+   * @return The absolute path of the file that this path points to, where
+   * symbolic links are resolved. This path if there is no such file.
+   */
+  Filepath resolve() const;
+
   /**
    * @return The current path, but with the filename cut off.
    */
-- 
2.43.0


From 304f30d0cac9e8dde446eb32b7934ca58e418313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 44/54] fix: a directory was read as an empty file

---
 src/input.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index c39d176..0b27cd0 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -26,6 +26,13 @@ class FileInput : public Input
     {
       EO_FATAL() << "Couldn't open file: " << filename;
     }
+    // directories can be opened, but not read
+    d_fs.peek();
+    if (d_fs.bad())
+    {
+      EO_FATAL() << "Couldn't read file: " << filename;
+    }
+    d_fs.clear();
   }
   std::istream* getStream() override { return &d_fs; }
  private:
-- 
2.43.0


From ed7ac8229bd0babfd25443fc13e1631f1cade1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 45/54] fix: a missing included file was reported without the
 place of the include

---
 src/util/filesystem.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/filesystem.cpp b/src/util/filesystem.cpp
index 2e204bf..cf29480 100644
--- a/src/util/filesystem.cpp
+++ b/src/util/filesystem.cpp
@@ -9,6 +9,10 @@
 #include "util/filesystem.h"
 
 #include <stdlib.h>
+#ifndef USE_CPP_FILESYSTEM
+#include <sys/stat.h>
+#include <unistd.h>
+#endif
 
 #include <fstream>
 #include <sstream>
@@ -77,8 +81,9 @@ bool Filepath::isAbsolute() const
 bool Filepath::exists() const
 {
 #ifndef USE_CPP_FILESYSTEM
-  std::ifstream f;
-  return f.good();
+  struct stat st;
+  return stat(rawPath.c_str(), &st) == 0 && !S_ISDIR(st.st_mode)
+         && access(rawPath.c_str(), R_OK) == 0;
 #else
   return std::filesystem::exists(rawPath)
          && std::filesystem::is_regular_file(rawPath);
-- 
2.43.0


From 728d276f092ebe7089c22cdf7f3cedd824484bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 46/54] fix: declare-consts with a conflicting type was
 reported without its place

---
 src/cmd_parser.cpp   |  6 +++++-
 src/state.cpp        |  8 ++++++--
 src/state.h          |  7 +++++--
 src/type_checker.cpp | 15 ++++++++++-----
 src/type_checker.h   |  7 +++++--
 5 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 413448e..d2a0889 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -369,7 +369,11 @@ bool CmdParser::parseNextCommand()
       Expr t = d_eparser.parseType();
       // maybe requires?
       // set the type rule
-      d_state.setLiteralTypeRule(k, t);
+      std::stringstream ss;
+      if (!d_state.setLiteralTypeRule(k, t, &ss))
+      {
+        d_lex.parseError(ss.str());
+      }
       d_state.popScope();
     }
     break;
diff --git a/src/state.cpp b/src/state.cpp
index 2a22a34..6a31151 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -508,13 +508,17 @@ void State::addReferenceAssert(const Expr& a)
   d_referenceAssertList.push_back(aa);
 }
 
-void State::setLiteralTypeRule(Kind k, const Expr& t)
+bool State::setLiteralTypeRule(Kind k, const Expr& t, std::ostream* out)
 {
-  d_tc.setLiteralTypeRule(k, t);
+  if (!d_tc.setLiteralTypeRule(k, t, out))
+  {
+    return false;
+  }
   if (d_plugin!=nullptr)
   {
     d_plugin->setLiteralTypeRule(k, t);
   }
+  return true;
 }
 
 Expr State::mkType()
diff --git a/src/state.h b/src/state.h
index 03005a1..e5fb334 100644
--- a/src/state.h
+++ b/src/state.h
@@ -77,8 +77,11 @@ class State
   bool addAssumption(const Expr& a, bool isPush);
   /** add reference assert */
   void addReferenceAssert(const Expr& a);
-  /** Set type rule for literal kind k to t */
-  void setLiteralTypeRule(Kind k, const Expr& t);
+  /**
+   * Set type rule for literal kind k to t. Returns false, and writes the reason
+   * to out, if a different type was already set.
+   */
+  bool setLiteralTypeRule(Kind k, const Expr& t, std::ostream* out = nullptr);
   /** */
   bool bind(const std::string& name, const Expr& e);
   /** 
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index c30e810..d84a1c8 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -41,7 +41,9 @@ void TypeChecker::resetLiteralTypeRules()
   }
 }
 
-void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
+bool TypeChecker::setLiteralTypeRule(Kind k,
+                                     const Expr& t,
+                                     std::ostream* out)
 {
   Trace("type_checker") << "**** setLiteralTypeRule " << k << " to " << t
                         << std::endl;
@@ -54,12 +56,15 @@ void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
   }
   else if (!it->second.isNull() && it->second != t)
   {
-    std::stringstream ss;
-    EO_FATAL() << "TypeChecker::setTypeRule: cannot set type rule for kind "
-                 << k << " to " << t << ", since its type was already set to "
-                 << it->second;
+    if (out)
+    {
+      (*out) << "Cannot set type rule for kind " << k << " to " << t
+             << ", since its type was already set to " << it->second;
+    }
+    return false;
   }
   it->second = t;
+  return true;
 }
 
 Expr TypeChecker::getOrSetLiteralTypeRule(Kind k, ExprValue* self)
diff --git a/src/type_checker.h b/src/type_checker.h
index b611b2a..a444eff 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -45,8 +45,11 @@ class TypeChecker
   static bool checkArity(Kind k, size_t nargs, std::ostream* out = nullptr);
   /** Reset the type rules for literal kinds */
   void resetLiteralTypeRules();
-  /** Set type rule for literal kind k to t */
-  void setLiteralTypeRule(Kind k, const Expr& t);
+  /**
+   * Set type rule for literal kind k to t. Returns false, and writes the reason
+   * to out, if a different type was already set.
+   */
+  bool setLiteralTypeRule(Kind k, const Expr& t, std::ostream* out = nullptr);
   /**
    * Evaluate the expression e in the given context.
    */
-- 
2.43.0


From 17fb730e6f6631ba9433aa09e1db10a2658b1582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 47/54] fix: a pop without a push was reported without its
 place

---
 src/cmd_parser.cpp | 4 ++++
 src/state.cpp      | 2 ++
 src/state.h        | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index d2a0889..0c6fa56 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -1023,6 +1023,10 @@ bool CmdParser::parseNextCommand()
       {
         num = d_eparser.parseIntegerNumeral();
       }
+      if (!isPush && num > d_state.getScopeLevel())
+      {
+        d_lex.parseError("Cannot pop more scopes than were pushed");
+      }
       for (size_t i=0; i<num; i++)
       {
         if (isPush)
diff --git a/src/state.cpp b/src/state.cpp
index 6a31151..c5667c8 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1683,6 +1683,8 @@ Expr State::getProgram(const ExprValue* ev)
   return d_null;
 }
 
+size_t State::getScopeLevel() const { return d_declsSizeCtx.size(); }
+
 size_t State::getAssumptionLevel() const
 {
   return d_assumptionsSizeCtx.size();
diff --git a/src/state.h b/src/state.h
index e5fb334..cd8db4f 100644
--- a/src/state.h
+++ b/src/state.h
@@ -249,6 +249,8 @@ class State
   Expr getProgram(const ExprValue* ev);
   /** */
   size_t getAssumptionLevel() const;
+  /** Get the number of scopes that are currently pushed */
+  size_t getScopeLevel() const;
   /** */
   std::vector<Expr> getCurrentAssumptions() const;
   /** Get hash for expression */
-- 
2.43.0


From e0f01b17e9afaa008665225691987c94f9df95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 48/54] fix: a missing option value swallowed the parentheses
 that follow

---
 src/expr_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index d6cca11..9d45fd8 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -588,7 +588,15 @@ std::string ExprParser::parseSymbolicExpr()
     switch (tok)
     {
       case Token::LPAREN: nparen++; break;
-      case Token::RPAREN: nparen--; break;
+      case Token::RPAREN:
+      {
+        if (nparen == 0)
+        {
+          d_lex.parseError("Expected s-expression");
+        }
+        nparen--;
+      }
+      break;
       case Token::EOF_TOK:
       {
         d_lex.parseError("Expected s-expression");
-- 
2.43.0


From 789d7f29f5688cf5ea21db5131c1e5c8f97d50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 49/54] fix: variables of let binders with parametric types
 were not bound

---
 src/expr_parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 9d45fd8..6574adf 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -681,6 +681,7 @@ std::vector<Expr> ExprParser::parseAndBindSortedVarList(
 std::vector<std::pair<Expr, Expr>> ExprParser::parseAndBindLetList()
 {
   std::vector<std::pair<Expr, Expr>> letList;
+  std::vector<std::string> names;
   d_lex.eatToken(Token::LPAREN);
   std::string name;
   Expr v, t, tt;
@@ -693,11 +694,13 @@ std::vector<std::pair<Expr, Expr>> ExprParser::parseAndBindLetList()
     tt = typeCheck(t);
     v = d_state.getBoundVar(name, tt);
     letList.emplace_back(v, t);
+    names.push_back(name);
   }
-  // now perform the bindings, which bind to the variable, not its definition
-  for (std::pair<Expr, Expr>& ll : letList)
+  // now perform the bindings, which bind to the variable, not its definition.
+  // Note that the variable is not a symbol if its type is not ground.
+  for (size_t i = 0, nvars = letList.size(); i < nvars; i++)
   {
-    bind(ll.first.getSymbol(), ll.first);
+    bind(names[i], letList[i].first);
   }
   return letList;
 }
-- 
2.43.0


From 80b7a877e95417b5e573c154227b43b34818ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 50/54] fix: report an unexpected keyword after the rule or the
 premises of a step

The last keyword of a step was ignored unless it was :premises or :args,
as in (step s true :rule r :arg) or (step s true :rule r :premises (p) :premises).
---
 src/cmd_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 0c6fa56..a4a2969 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -915,6 +915,7 @@ bool CmdParser::parseNextCommand()
         RuleStat::start(d_sts);
       }
       // parse premises, optionally
+      keyword.clear();
       if (d_lex.peekToken()==Token::KEYWORD)
       {
         keyword = d_eparser.parseKeyword();
@@ -923,6 +924,7 @@ bool CmdParser::parseNextCommand()
       if (keyword=="premises")
       {
         premises = d_eparser.parseExprList();
+        keyword.clear();
         if (d_lex.peekToken()==Token::KEYWORD)
         {
           keyword = d_eparser.parseKeyword();
@@ -934,6 +936,10 @@ bool CmdParser::parseNextCommand()
       {
         args = d_eparser.parseExprList();
       }
+      else if (!keyword.empty())
+      {
+        d_lex.parseError("Unexpected keyword in step");
+      }
       // compute the conclusion of the proof rule
       Expr concTerm;
       if (!d_state.notifyStep(
-- 
2.43.0


From 239f1942e70e22526a0a52e098622746a8c2bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 51/54] fix: eo::var and eo::nameof agree on names with
 backslashes or extended characters

---
 src/expr.cpp         |  6 +++++-
 src/type_checker.cpp | 10 ++++++---
 src/util/string.cpp  | 51 ++++++++++++++++++++++++++++++++++++++++++++
 src/util/string.h    |  7 ++++++
 4 files changed, 70 insertions(+), 4 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index c5242b4..b5510e1 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -395,7 +395,11 @@ void Expr::printDebugInternal(const Expr& e,
         Expr tt(ExprValue::d_state->lookupType(cur.first));
         const Literal* l = cur.first->asLiteral();
         Assert(l != nullptr);
-        os << "(eo::var " << quoteString(l->toString()) << " ";
+        // the name is the value of a string literal
+        String name;
+        bool isName = String::fromUtf8(l->toString(), name);
+        os << "(eo::var "
+           << quoteString(isName ? name.toString() : l->toString()) << " ";
         visit.back().second++;
         visit.emplace_back(tt.getValue(), 0);
       }
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index d84a1c8..ff38835 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1262,8 +1262,12 @@ Expr TypeChecker::evaluateLiteralOpInternal(
       Kind k = args[0]->getKind();
       if (k == Kind::CONST || k == Kind::VARIABLE)
       {
-        Literal sym(String(Expr(args[0]).getSymbol()));
-        return Expr(d_state.mkLiteralInternal(sym));
+        String name;
+        if (String::fromUtf8(Expr(args[0]).getSymbol(), name))
+        {
+          Literal sym(name);
+          return Expr(d_state.mkLiteralInternal(sym));
+        }
       }
     }
     break;
@@ -1277,7 +1281,7 @@ Expr TypeChecker::evaluateLiteralOpInternal(
         if (!tt.isNull() && tt.getKind()==Kind::TYPE)
         {
           const Literal* l = args[0]->asLiteral();
-          return d_state.getBoundVar(l->d_str.toString(), type);
+          return d_state.getBoundVar(l->d_str.toUtf8(), type);
         }
       }
     }
diff --git a/src/util/string.cpp b/src/util/string.cpp
index 134fd07..d1fa91b 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -214,6 +214,57 @@ std::string String::toString(bool useEscSequences) const {
   return str.str();
 }
 
+std::string String::toUtf8() const
+{
+  std::string ret;
+  for (unsigned c : d_str)
+  {
+    if (c < 0x80)
+    {
+      ret.push_back(static_cast<char>(c));
+      continue;
+    }
+    // the number of bytes following the first one
+    size_t n = c < 0x800 ? 1 : (c < 0x10000 ? 2 : 3);
+    unsigned lead = n == 1 ? 0xC0 : (n == 2 ? 0xE0 : 0xF0);
+    ret.push_back(static_cast<char>(lead | (c >> (6 * n))));
+    while (n > 0)
+    {
+      --n;
+      ret.push_back(static_cast<char>(0x80 | ((c >> (6 * n)) & 0x3F)));
+    }
+  }
+  return ret;
+}
+
+bool String::fromUtf8(const std::string& s, String& str)
+{
+  std::vector<unsigned> vec;
+  for (size_t i = 0; i < s.size(); ++i)
+  {
+    unsigned c = static_cast<unsigned char>(s[i]);
+    size_t n = c < 0xC0 ? 0 : (c < 0xE0 ? 1 : (c < 0xF0 ? 2 : 3));
+    if (n > 0)
+    {
+      c &= (0x3F >> n);
+      // missing bytes are found to be an error by the test below
+      for (size_t k = 0; k < n && i + 1 < s.size(); ++k)
+      {
+        ++i;
+        c = (c << 6) | (static_cast<unsigned char>(s[i]) & 0x3F);
+      }
+    }
+    if (c >= num_codes())
+    {
+      return false;
+    }
+    vec.push_back(c);
+  }
+  str = String(vec);
+  // only the (unique) encoding is accepted
+  return str.toUtf8() == s;
+}
+
 bool String::isLeq(const String &y) const
 {
   for (unsigned i = 0; i < size(); ++i)
diff --git a/src/util/string.h b/src/util/string.h
index 97a120a..25a547f 100644
--- a/src/util/string.h
+++ b/src/util/string.h
@@ -84,6 +84,13 @@ class String
    *    cvc5::internal::String( s ).toString() = s.
    */
   std::string toString(bool useEscSequences = false) const;
+  /** Return the UTF-8 encoding of this string, without escape sequences */
+  std::string toUtf8() const;
+  /**
+   * Set str to the string whose UTF-8 encoding is s. Returns false if s is not
+   * the UTF-8 encoding of a string, i.e. of code points below num_codes().
+   */
+  static bool fromUtf8(const std::string& s, String& str);
   /** is less than or equal to string y */
   bool isLeq(const String& y) const;
   /** Return the length of the string */
-- 
2.43.0


From 5d309bc9746e689f36439995e12ef0354cef14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 52/54] fix: a reference to a file that was already included is
 a reference

---
 src/state.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index c5667c8..408a1b7 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -331,17 +331,18 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return false;
   }
 
-  if (!markIncluded(inputPath))
-  {
-    return true;
-  }
   Assert (!isReference || !d_hasReference);
   if (isReference)
   {
-    // includes that come later do not impact the reference
+    // includes that come later do not impact the reference, which has no
+    // assertions if the file was already included
     d_hasReference = true;
     d_referenceNf = referenceNf;
   }
+  if (!markIncluded(inputPath))
+  {
+    return true;
+  }
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From 6e676557a4a44d5ef422d6884ac3b383213a605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 53/54] fix: substitute into applications of eo::ite with a
 wrong number of arguments

---
 src/type_checker.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index ff38835..90e01a9 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -649,15 +649,10 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
         }
         // otherwise, visit children
         visited[cur] = d_null;
-        if (ck==Kind::EVAL_IF_THEN_ELSE)
+        // note that if it is malformed, all its children are visited, since it
+        // does not evaluate but is still subject to substitution
+        if (ck == Kind::EVAL_IF_THEN_ELSE && children.size() == 3)
         {
-          // if it is malformed, it does not evaluate
-          if (children.size()!=3)
-          {
-            visited[cur] = Expr(cur);
-            visit.pop_back();
-            continue;
-          }
           // special case: visit only the condition
           visit.push_back(children[0]);
         }
@@ -746,8 +741,11 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
             break;
           case Kind::EVAL_IF_THEN_ELSE:
           {
+            if (children.size() != 3)
+            {
+              break;
+            }
             Assert (cchildren[0]!=nullptr);
-            Assert (children.size()==3);
             // get the evaluation of the condition
             if (cchildren[0]->getKind()==Kind::BOOLEAN)
             {
-- 
2.43.0


From 05a454fa909dd2d12ea4755ceade2d200edb01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:18 +0000
Subject: [PATCH 54/54] fix: reject function types over parameters that are not
 types

---
 src/type_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 90e01a9..8b06b12 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -268,7 +268,7 @@ Expr TypeChecker::getTypeInternal(ExprValue* e, std::ostream* out)
         ExprValue* ct = d_state.lookupType(c);
         Assert(ct != nullptr);
         if (c->getKind() != Kind::QUOTE_TYPE && ct->getKind() != Kind::TYPE
-            && ct->isGround() && c->isGround())
+            && ct->isGround() && (c->isGround() || !c->isEvaluatable()))
         {
           if (out)
           {
-- 
2.43.0

