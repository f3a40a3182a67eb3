From 16fb2a19d669a87c856e9339b8f98e0abee31071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 01/45] fix: quote negative numbers whose display would not
 evaluate back to them

---
 ptypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ptypes.py b/ptypes.py
index cd42463..ea0a99f 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -55,9 +55,12 @@ class Scalar(PipIterable):
 
     def __repr__(self):
         m = pipFloatRgx.match(self._value) or intRgx.match(self._value)
-        if m and m.end() == len(self._value):
+        if (m and m.end() == len(self._value)
+                and (self._value[0] != "-"
+                     or str(Scalar(self.toNumber())) == self._value)):
             # Scalars that match the format of Pip numeric literals
             # can be displayed without quotes
+            # (but not, e.g., "-05", because it would evaluate to -5)
             return self._value
         else:
             # Other Scalars, even those that can evaluate to a number,
-- 
2.43.0


From d6101bc38fb23db7017188c4f1f29112ea220c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 02/45] fix: treat an escaped backslash before a name in an
 escaped string as a backslash

---
 parsing.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parsing.py b/parsing.py
index ab910da..e4c0eb9 100644
--- a/parsing.py
+++ b/parsing.py
@@ -213,7 +213,16 @@ def parseOperand(tokenList):
         # Strip off \" delimiters
         rawText = token[2:-2]
         # Parse any interpolation sequences (for now, just names)
-        litOrInterpolation = re.split(r"\\([a-z_]|[A-Z]{1,2})", rawText)
+        # (an escaped backslash followed by a name is not an interpolation)
+        litOrEscape = re.split(r"(\\(?:\\|[a-z_]|[A-Z]{1,2}))", rawText)
+        litOrInterpolation = [litOrEscape.pop(0)]
+        while litOrEscape:
+            escape = litOrEscape.pop(0)
+            literal = litOrEscape.pop(0)
+            if escape == r"\\":
+                litOrInterpolation[-1] += escape + literal
+            else:
+                litOrInterpolation.extend([escape[1:], literal])
         if len(litOrInterpolation) == 1:
             # No interpolations--return the token unchanged
             return token
-- 
2.43.0


From 589265f2ec86c8d4ff6ad7b41299f74e8cb1b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 03/45] fix: don't lose trailing characters or add a nil when
 displaying a function

---
 parsing.py | 3 ++-
 ptypes.py  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parsing.py b/parsing.py
index e4c0eb9..27ea7ea 100644
--- a/parsing.py
+++ b/parsing.py
@@ -356,7 +356,8 @@ def unparse(tree, statementSep=""):
             code += unparseExpr(statement, statementSep)
         code += "; "
         code += statementSep
-    return code.strip("; " + statementSep)
+    # Remove the separator after the last statement
+    return code.removesuffix("; " + statementSep)
 
 def unparseExpr(tree, statementSep):
     "Convert parse tree of expression back to string of code."
diff --git a/ptypes.py b/ptypes.py
index ea0a99f..9ce1eec 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -714,7 +714,9 @@ class Block(PipType):
         return repr(self)
 
     def __repr__(self):
-        statements = self._statements + [self._returnExpr]
+        statements = list(self._statements)
+        if self._returnExpr is not nil:
+            statements.append(self._returnExpr)
         return "{" + parsing.unparse(statements) + "}"
 
     def __bool__(self):
-- 
2.43.0


From 0fba5cf74d81a8472e9ee51e193ad749ac05defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 04/45] fix: keep the two expressions of LR separate when
 displaying a function

---
 parsing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsing.py b/parsing.py
index 27ea7ea..fb6a04c 100644
--- a/parsing.py
+++ b/parsing.py
@@ -349,6 +349,9 @@ def unparse(tree, statementSep=""):
                         argtype = "CODE"
                     if argtype == "LOOPVAR" or argtype == "EXPR":
                         code += " " + unparseExpr(arg, statementSep)
+                        if statement[0].argtypes[i:i+2] == ["EXPR", "EXPR"]:
+                            # Keep consecutive expressions separate
+                            code += ";"
                     elif argtype == "CODE":
                         code += " {" + unparse(arg, statementSep) + "}"
         else:
-- 
2.43.0


From d2f26dfe80e70cdd53f514e4c6c0fe496c78bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 05/45] fix: parenthesize negative numbers and flagged patterns
 inside displayed functions

---
 parsing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parsing.py b/parsing.py
index fb6a04c..b9921d9 100644
--- a/parsing.py
+++ b/parsing.py
@@ -386,7 +386,13 @@ def unparseExpr(tree, statementSep):
                     operand = unparseExpr(item, statementSep)
                     if (isinstance(item, list)
                             and item[0] not in ["PAREN", "BLOCK",
-                                                "SEND", "LIST"]):
+                                                "SEND", "LIST"]
+                            or not isinstance(item, (list, tokens.Token))
+                            and operand[0] in "-A,."):
+                        # Compound expressions need parentheses; so do
+                        # values (from lambda-building operators) that
+                        # display as an operator and its operand, such as
+                        # negative numbers and Patterns with flags
                         operand = "(" + operand + ")"
                     operands.append(operand)
             if op == "CHAIN":
-- 
2.43.0


From 4fa64d7c662bf78c1e2e903aa2dae359f7b83d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 06/45] fix: display functions built by folding or scanning
 with both operands

---
 execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/execution.py b/execution.py
index d1c0b2b..091e9b1 100644
--- a/execution.py
+++ b/execution.py
@@ -630,6 +630,7 @@ class ProgramState:
         iterable = self.getRval(iterable)
         normalOp = operator.copy()
         normalOp.fold = False
+        normalOp.arity = 2
         if isinstance(iterable, Block):
             # Create a lambda expression instead
             statements = iterable.getStatements()
@@ -696,6 +697,7 @@ class ProgramState:
         iterable = self.getRval(iterable)
         normalOp = operator.copy()
         normalOp.scan = False
+        normalOp.arity = 2
         if isinstance(iterable, Block):
             # Create a lambda expression instead
             statements = iterable.getStatements()
-- 
2.43.0


From 6847085632766e56697870fbdadce89b34f8cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 07/45] fix: copy values when assigning, so that variables
 never share state

---
 execution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 091e9b1..384de48 100644
--- a/execution.py
+++ b/execution.py
@@ -353,7 +353,9 @@ class ProgramState:
         varTable = self.varTable(base)
         if not lval.sliceList:
             # This is a simple name; just make the assignment
-            varTable[base] = rval
+            # (using a copy, so that modifying the variable in place can't
+            # affect anything else, such as a value inside a function)
+            varTable[base] = rval.copy()
             return
         elif base not in varTable:
             # If there is a slicelist, the variable must exist
@@ -388,7 +390,7 @@ class ProgramState:
             # Test for this case and warning message TODO?
             index = lval.sliceList[-1]
             try:
-                currentVal[index] = rval
+                currentVal[index] = rval.copy()
             except (IndexError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
@@ -616,7 +618,7 @@ class ProgramState:
             }
         self.vars["\\g"] = List(self.args)
         for name, arg in zip("abcde", self.args):
-            self.vars["\\" + name] = arg
+            self.vars["\\" + name] = arg.copy()
         if self.mainFunction is not None:
             self.vars["\\f"] = self.mainFunction
         else:
@@ -4386,7 +4388,7 @@ class LocalScope:
         self.vars = {}
         if self.argList is not None:
             for name, arg in zip("abcde", argList):
-                self.vars[name] = arg
+                self.vars[name] = arg.copy()
             self.vars["f"] = function
             self.vars["g"] = List(argList)
 
-- 
2.43.0


From f5255f8b7ddecadde3f63fbd1956979aa7e0db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 08/45] fix: weave empty lists, warn about weaving other types,
 don't modify the argument

---
 execution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 384de48..fb2bd77 100644
--- a/execution.py
+++ b/execution.py
@@ -4190,6 +4190,8 @@ class ProgramState:
                 # Weaving the characters just results in the same thing anyway
                 return iterables
             elif isinstance(iterables, (List, Range)):
+                # Make a copy, because the list may be modified below
+                iterables = list(iterables)
                 result = []
                 allScalar = True
                 for i, iterable in enumerate(iterables):
@@ -4204,7 +4206,7 @@ class ProgramState:
                         self.err.warn("Cannot weave object of type",
                                       type(iterable))
                         return nil
-                for i in range(max(map(len, iterables))):
+                for i in range(max(map(len, iterables), default=0)):
                     for iterable in iterables:
                         if i < len(iterable):
                             result.append(iterable[i])
@@ -4212,6 +4214,10 @@ class ProgramState:
                     return Scalar(self.JOIN(result))
                 else:
                     return List(result)
+            else:
+                self.err.warn("Unimplemented argtype for WEAVE:",
+                              type(iterables))
+                return nil
         else:
             # Binary version: two iterables to be woven together
             if iterable1 is nil:
-- 
2.43.0


From 3857bb82f564e223517aac6acb63bcc1c9892e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 09/45] fix: warn instead of dying when assigning to an index
 of an unsuitable item

---
 execution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index fb2bd77..b4e635c 100644
--- a/execution.py
+++ b/execution.py
@@ -377,8 +377,9 @@ class ProgramState:
             for index in lval.sliceList[:-1]:
                 try:
                     currentVal = currentVal[index]
-                except IndexError:
-                    self.err.warn(f"Invalid index into {result!r}: {index}")
+                except (IndexError, TypeError):
+                    self.err.warn(f"Invalid index into {currentVal!r}:",
+                                  index)
                     return
                 
             # Final level--do the assignment
@@ -391,7 +392,7 @@ class ProgramState:
             index = lval.sliceList[-1]
             try:
                 currentVal[index] = rval.copy()
-            except (IndexError, ZeroDivisionError):
+            except (IndexError, ZeroDivisionError, TypeError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
         else:
-- 
2.43.0


From 465af327cf8f68d0843c6a25d865f5e87e58713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 10/45] fix: leave a function's scope when a fatal error ends
 the call

---
 execution.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/execution.py b/execution.py
index b4e635c..e2f9ec7 100644
--- a/execution.py
+++ b/execution.py
@@ -406,18 +406,22 @@ class ProgramState:
                    for arg in argList]
         # Open a new scope for the function's local variables
         self.openScope(function, argList)
-        for statement in function.getStatements():
-            statementValue = self.executeStatement(statement)
-            # If the statement was actually an expression, store its
-            # value in the history variables ($_ etc.)
-            if statementValue is not None:
-                self.updateHistoryVars(statementValue)
-        returnExpr = function.getReturnExpr()
-        if returnExpr is not None:
-            returnVal = self.getRval(returnExpr)
-        else:
-            returnVal = nil
-        self.closeScope()
+        try:
+            for statement in function.getStatements():
+                statementValue = self.executeStatement(statement)
+                # If the statement was actually an expression, store its
+                # value in the history variables ($_ etc.)
+                if statementValue is not None:
+                    self.updateHistoryVars(statementValue)
+            returnExpr = function.getReturnExpr()
+            if returnExpr is not None:
+                returnVal = self.getRval(returnExpr)
+            else:
+                returnVal = nil
+        finally:
+            # Close the scope even after a fatal error, because a REPL
+            # session goes on after one
+            self.closeScope()
         return returnVal
 
     def openScope(self, function, argList):
-- 
2.43.0


From 3b7fe51a7e95d5532e3a1f2f8e5c5bdb87aea02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 11/45] fix: make operations that cannot be computed nonfatal
 errors

---
 execution.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/execution.py b/execution.py
index e2f9ec7..220c5b6 100644
--- a/execution.py
+++ b/execution.py
@@ -229,6 +229,13 @@ class ProgramState:
                 # Probably the wrong number of args
                 self.err.die(f"Implementation error: evaluate({expression}) "
                              "raised TypeError:", e)
+            except (ArithmeticError, ValueError, re.error) as e:
+                # The operation can't be performed on these values: the
+                # result is out of range, for example, or a Pattern isn't a
+                # valid regex, or something needs the length of an infinite
+                # Range
+                self.err.warn(f"Cannot evaluate {operator}:", e)
+                result = nil
         #!print(fnName, "returned", result)
         return result
 
-- 
2.43.0


From 789af48b7a0e810bd32e64bac270a5bf5c12e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 12/45] fix: correct variable names in the warnings of ZD and
 MM

---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 220c5b6..fedfa71 100644
--- a/execution.py
+++ b/execution.py
@@ -2270,7 +2270,7 @@ class ProgramState:
             return List(self.MAP(lhs, item) for item in iterable)
         else:
             self.err.warn("Unimplemented argtypes for MAPMAP:",
-                          type(function), "and", type(iterable))
+                          type(lhs), "and", type(iterable))
             return nil
 
     def MAPPAIRS(self, function, iterable):
@@ -4330,7 +4330,7 @@ class ProgramState:
                 return List(List(tuple) for tuple in
                             itertools.zip_longest(*lists, fillvalue=default))
         else:
-            self.err.warn("Trying to zip non-iterable:", type(list1))
+            self.err.warn("Trying to zip non-iterable:", type(lists))
             return nil
 
     def ZIPJOIN(self, line1, line2=None):
-- 
2.43.0


From 08a16915365232c43de5eb378500f5550885daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 13/45] fix: warn about a right operand of \, that is not a
 bound

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index fedfa71..059d9aa 100644
--- a/execution.py
+++ b/execution.py
@@ -1909,7 +1909,7 @@ class ProgramState:
 
     def INCLRANGE(self, lhs, rhs):
         """Like RANGE, but include upper bound."""
-        if isinstance(lhs, (Scalar, Nil)) and isinstance(lhs, (Scalar, Nil)):
+        if isinstance(lhs, (Scalar, Nil)) and isinstance(rhs, (Scalar, Nil)):
             if isinstance(rhs, Scalar):
                 return Range(lhs, int(rhs) + 1)
             elif rhs is nil:
-- 
2.43.0


From e9a0b7688bca739bdd7ad01c379cd19b9882b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 14/45] fix: make RA work on ranges and warn about indices it
 cannot replace at

---
 execution.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 059d9aa..ab30a7d 100644
--- a/execution.py
+++ b/execution.py
@@ -3261,9 +3261,19 @@ class ProgramState:
     def REPLACEAT(self, lhs, index, new):
         if (isinstance(lhs, PipIterable)
                 and isinstance(index, PipIterable)):
+            if isinstance(lhs, Range):
+                # Can't modify a Range... cast it to a List first
+                if not lhs.isFinite():
+                    self.err.warn(f"Cannot replace in infinite Range {lhs}")
+                    return nil
+                lhs = List(lhs)
             result = lhs.copy()
             if isinstance(index, List):
                 if isinstance(new, List):
+                    if len(new) == 0 and len(index) > 0:
+                        self.err.warn("Cannot replace with values from an "
+                                      "empty list")
+                        return nil
                     # Both are lists--replace at corresponding indices
                     # with corresponding values
                     # If the new list is shorter than the index list, cycle
@@ -3281,7 +3291,10 @@ class ProgramState:
                     index = int(index)
                 elif isinstance(index, Range):
                     index = index.toSlice()
-                result[index] = new
+                try:
+                    result[index] = new
+                except (IndexError, ZeroDivisionError, TypeError):
+                    self.err.warn(f"Invalid index into {lhs!r}:", index)
                 return result
         elif index is nil:
             # Replacing at nil index leaves lhs unchanged
-- 
2.43.0


From 51da80fefa46472e05413674d9970f8ad9246537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 15/45] fix: use integer character codes in TR

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index ab30a7d..22a4747 100644
--- a/execution.py
+++ b/execution.py
@@ -4082,7 +4082,7 @@ class ProgramState:
                 if isinstance(newChar, str):
                     newChar = ord(newChar)
                 elif isinstance(newChar, Scalar):
-                    newChar = newChar.toNumber()
+                    newChar = int(newChar)
                 elif newChar is nil:
                     newChar = None
                 else:
-- 
2.43.0


From c529d680636662b9505a625fc03d87aa285e3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 16/45] fix: warn instead of crashing on infinite L loops and
 invalid LR regexes

---
 execution.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 22a4747..93adfb3 100644
--- a/execution.py
+++ b/execution.py
@@ -538,7 +538,11 @@ class ProgramState:
         elif isinstance(count, Scalar):
             count = int(count)
         elif isinstance(count, (List, Range)):
-            count = len(count)
+            try:
+                count = len(count)
+            except ValueError:
+                self.err.warn(f"Cannot loop over infinite Range {count}")
+                return
         else:
             self.err.warn("Unimplemented argtype for LOOP:",
                           type(count))
@@ -557,7 +561,11 @@ class ProgramState:
             regex = self.REGEX(regex)
         if isinstance(regex, Pattern) and isinstance(string, Scalar):
             # TBD: behavior for other types, such as isinstance(string, List)?
-            matches = regex.asRegex().finditer(str(string))
+            try:
+                matches = regex.asRegex().finditer(str(string))
+            except re.error as err:
+                self.err.warn(f"Invalid regex {regex!r}:", err)
+                return
             for matchObj in matches:
                 self.assignRegexVars(matchObj)
                 # Then execute the loop body
-- 
2.43.0


From 6fa5ffa33b0fc4086a2a9d1699b67651a366d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 17/45] fix: apply alternatives and flags when stripping a
 Pattern

---
 execution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 93adfb3..628343b 100644
--- a/execution.py
+++ b/execution.py
@@ -2166,7 +2166,8 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})",
+                                       extra._flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3484,7 +3485,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z", extra._flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3808,12 +3809,13 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})",
+                                       extra._flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
                     newString = beginning.sub("", oldString)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z", extra._flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
-- 
2.43.0


From 6559271cd52e917a096b7351453c9e61d5cf63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 18/45] fix: give nil for unmatched groups when splitting on a
 Pattern

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 628343b..5d606ef 100644
--- a/execution.py
+++ b/execution.py
@@ -3660,7 +3660,8 @@ class ProgramState:
                     result = (Scalar(char) for char in str(string))
                 else:
                     sep = sep.asSeparator()
-                    result = (Scalar(substr)
+                    # Capturing groups that didn't match give nil
+                    result = (ptypes.toPipType(substr)
                               for substr in sep.split(str(string)))
             else:
                 result = (Scalar(substr) for substr in str(string).split(sep))
-- 
2.43.0


From 710b39c865bd09d90008ca8875c155ee2a52f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 19/45] fix: shift infinite ranges correctly and subtract
 fractions from ranges

---
 execution.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/execution.py b/execution.py
index 5d606ef..a05ccac 100644
--- a/execution.py
+++ b/execution.py
@@ -804,6 +804,8 @@ class ProgramState:
                 lower += int(lhs)
                 if upper is not None:
                     upper += int(lhs)
+                else:
+                    upper = nil
                 return Range(lower, upper)
             else:
                 return List(self.ADD(lhs, item) for item in rhs)
@@ -3895,12 +3897,17 @@ class ProgramState:
             result = lhs.toNumber() - rhs.toNumber()
             return Scalar(result)
         elif isinstance(lhs, Range) and isinstance(rhs, Scalar):
-            lower = lhs.getLower() or 0
-            upper = lhs.getUpper()
-            lower -= int(rhs)
-            if upper is not None:
-                upper -= int(rhs)
-            return Range(lower, upper)
+            if rhs.toNumber() == int(rhs):
+                lower = lhs.getLower() or 0
+                upper = lhs.getUpper()
+                lower -= int(rhs)
+                if upper is not None:
+                    upper -= int(rhs)
+                else:
+                    upper = nil
+                return Range(lower, upper)
+            else:
+                return List(self.SUB(item, rhs) for item in lhs)
         elif isinstance(lhs, Scalar) and isinstance(rhs, Range):
             return List(self.SUB(lhs, item) for item in rhs)
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-- 
2.43.0


From 1a1cedf4e7fb55ab5cb13f1d6a0731855f6e5182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 20/45] fix: make NE the opposite of Q for Patterns

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index a05ccac..805b059 100644
--- a/execution.py
+++ b/execution.py
@@ -3882,7 +3882,8 @@ class ProgramState:
             return nil
 
     def STRNOTEQUAL(self, lhs, rhs):
-        if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
+        if (isinstance(lhs, (Scalar, Pattern))
+                and isinstance(rhs, (Scalar, Pattern))):
             result = str(lhs) != str(rhs)
         elif isinstance(lhs, List) and isinstance(rhs, List):
             result = (len(lhs) != len(rhs)
-- 
2.43.0


From 71b423cedbaa59c69d8618e024f4f2daf7853937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 21/45] fix: let NI accept a right operand that is not iterable

---
 execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 805b059..eaa573d 100644
--- a/execution.py
+++ b/execution.py
@@ -2484,8 +2484,11 @@ class ProgramState:
         elif isinstance(needle, Pattern) and isinstance(haystack, Scalar):
             matchExists = needle.asRegex().search(str(haystack))
             return Scalar(not matchExists)
-        else:
+        elif isinstance(haystack, PipIterable):
             return Scalar(needle not in haystack)
+        else:
+            # If it's not one of those types, it's automatically true
+            return Scalar("1")
 
     def NUMCMP(self, lhs, rhs):
         # Equivalent to Python2's cmp() function: return -1 if lhs < rhs,
-- 
2.43.0


From ede09fafa9ff44625a34a456ac270cc265db65b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 22/45] fix: keep a Pattern's flags when repeating it with X

---
 execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index eaa573d..eb075a3 100644
--- a/execution.py
+++ b/execution.py
@@ -3878,7 +3878,10 @@ class ProgramState:
         if isinstance(lhs, (Scalar, Pattern)) and isinstance(rhs, Scalar):
             string = str(lhs)
             num = int(rhs)
-            return type(lhs)(string*num)
+            if isinstance(lhs, Pattern):
+                return Pattern(string*num, lhs._flags)
+            else:
+                return Scalar(string*num)
         else:
             self.err.warn("Unimplemented argtypes for STRMUL:",
                           type(lhs), "and", type(rhs))
-- 
2.43.0


From d200085fb152513e4632a7cb17ed0ba3352d8f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 23/45] fix: TM never trims more than the whole string

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index eb075a3..1b8abdc 100644
--- a/execution.py
+++ b/execution.py
@@ -4146,7 +4146,8 @@ class ProgramState:
             front = max(front, 0)
             back = max(back, 0)
             string = str(string)
-            return Scalar(string[front:len(string)-back])
+            end = max(len(string) - back, 0)
+            return Scalar(string[front:end])
         else:
             self.err.warn("Unimplemented argtype for lhs of TRIM:",
                           type(string))
-- 
2.43.0


From 4f26137d21f9cbef39acb9434e7effae796e2739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 24/45] fix: print ranges inside lists like lists with -l and
 -S

---
 ptypes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index 9ce1eec..9219368 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -359,7 +359,8 @@ class List(PipIterable):
         elif self.outFormat == "l":
             # Each item in the list is a line, which in turn is joined on
             # empty string
-            return "\n".join(i.joined("") if isinstance(i, List) else str(i)
+            return "\n".join(i.joined("") if isinstance(i, (List, Range))
+                             else str(i)
                              for i in self._value)
         elif self.outFormat == "P":
             # Each item in the list is a line, which in turn is repr'd
@@ -367,12 +368,13 @@ class List(PipIterable):
         elif self.outFormat == "S":
             # Each item in the list is a line, which in turn is joined on
             # space
-            return "\n".join(i.joined(" ") if isinstance(i, List) else str(i)
+            return "\n".join(i.joined(" ") if isinstance(i, (List, Range))
+                             else str(i)
                              for i in self._value)
 
     def joined(self, separator):
         return separator.join(i.joined(separator)
-                              if isinstance(i, List)
+                              if isinstance(i, (List, Range))
                               else str(i)
                               for i in self._value)
 
@@ -534,6 +536,12 @@ class Range(PipIterable):
             # Infinite Ranges have to use the repr
             return repr(self)
 
+    def joined(self, separator):
+        if self.isFinite():
+            return List(self).joined(separator)
+        else:
+            return repr(self)
+
     def __repr__(self):
         lower = self._lower if self._lower is not None else "()"
         upper = self._upper if self._upper is not None else "()"
-- 
2.43.0


From a74ab54987a84f3f150f72f3f36fcd4016edb042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 25/45] fix: apply slices to lists of variables

---
 execution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 1b8abdc..f3aafbf 100644
--- a/execution.py
+++ b/execution.py
@@ -4401,7 +4401,13 @@ class ProgramState:
 
 class Lval:
     def __init__(self, base, sliceValue=None):
-        if isinstance(base, Lval):
+        if (isinstance(base, Lval) and isinstance(base.base, List)
+                and sliceValue is not None):
+            # A slice of a list of lvals is a shorter list of lvals
+            self.base = base.base[sliceValue]
+            self.sliceList = []
+            self.evaluated = base.evaluated
+        elif isinstance(base, Lval):
             self.base = base.base
             # Make sure to copy the slicelist so changes here don't modify the
             # original
-- 
2.43.0


From e81c6ac1d372e250b9dfc2a3dbe7e18b379512fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 26/45] fix: store values rather than references when mapping
 an operator

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index f3aafbf..0d0abcb 100644
--- a/execution.py
+++ b/execution.py
@@ -708,7 +708,8 @@ class ProgramState:
             newReturnExpr = [operator, returnExpr]
             return Block(statements, newReturnExpr)
         elif isinstance(iterable, PipIterable):
-            return List(self.evaluate([normalOp, item]) for item in iterable)
+            return List(self.getRval(self.evaluate([normalOp, item]))
+                        for item in iterable)
         elif iterable is nil:
             return nil
         else:
-- 
2.43.0


From ab3a8ad3b943c88e2a81e7ece2ef870cc1b26078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 27/45] fix: leave the REPL cleanly at the end of input

---
 pip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index 80b5c11..6eb843c 100644
--- a/pip.py
+++ b/pip.py
@@ -390,7 +390,7 @@ def repl(list_format=None, warnings=False):
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-    except KeyboardInterrupt:
+    except (KeyboardInterrupt, EOFError):
         pass
     print("Bye!")
 
-- 
2.43.0


From 973cba38bb12009d93ec0a53d1d727f3d482e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 28/45] fix: warn when RE is used outside any function

---
 execution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/execution.py b/execution.py
index 0d0abcb..d4addff 100644
--- a/execution.py
+++ b/execution.py
@@ -3162,6 +3162,10 @@ class ProgramState:
 
     def RECURSE(self, rhs):
         "Call the current function recursively with rhs as its argument."
+        if self.localScope.function is None:
+            # This happens at the top level of the REPL
+            self.err.warn("No current function for RECURSE")
+            return nil
         return self.functionCall(self.localScope.function,
                                  [rhs])
 
-- 
2.43.0


From 5688fafa0135093ec32c723d72ccee02571bcc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 29/45] fix: warn when V is given two functions

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index d4addff..d7f58b1 100644
--- a/execution.py
+++ b/execution.py
@@ -1428,7 +1428,8 @@ class ProgramState:
                 self.err.die(f"Parsing error while evaluating {code!r}:",
                              err)
             code = self.BLOCK(tree)
-        if isinstance(code, Block) and argList is not None:
+        if (isinstance(code, Block) and argList is not None
+                and not isinstance(argList, Block)):
             return self.functionCall(code, argList)
         elif isinstance(code, Block) and argList is None:
             # Not a function call--just run the block at current scope
-- 
2.43.0


From 628b2ee7e24c57ff19bcbac0d86d8b5d5b800ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:09 +0000
Subject: [PATCH 30/45] fix: chop into exactly the requested number of pieces

---
 execution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index d7f58b1..75b8a7f 100644
--- a/execution.py
+++ b/execution.py
@@ -1,4 +1,5 @@
 
+from fractions import Fraction
 import itertools
 import math
 import random
@@ -1117,9 +1118,12 @@ class ProgramState:
         if isinstance(iterable, PipIterable) and isinstance(rhs, Scalar):
             result = List()
             chunks = rhs.toNumber()
+            if chunks != 0:
+                # Use exact arithmetic, so that rounding errors cannot add
+                # an extra chunk or move the boundaries
+                jump = len(iterable) / Fraction(str(chunks))
             if chunks > 0:
                 index = 0
-                jump = len(iterable) / chunks
                 while index < len(iterable):
                     endIndex = min(index + jump, len(iterable))
                     chunk = iterable[math.floor(index):math.floor(endIndex)]
@@ -1129,7 +1133,6 @@ class ProgramState:
             elif chunks < 0:
                 # With a negative chunk number, chop from right to left
                 index = len(iterable)
-                jump = len(iterable) / chunks
                 while index > 0:
                     startIndex = max(index + jump, 0)
                     chunk = iterable[math.ceil(startIndex):math.ceil(index)]
-- 
2.43.0


From d1c95ba812ac0007e12b5e6ea8678b993e7a233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 31/45] fix: let an empty Pattern be repeated

---
 ptypes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index 9219368..c7cbe05 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -238,15 +238,19 @@ class Pattern(PipType):
     def group(self):
         return Pattern(f"({self._raw})", self._flags)
 
+    def quantify(self, quantifier):
+        # A quantifier needs something to repeat, even if that is empty
+        return Pattern((self._raw or "(?:)") + quantifier, self._flags)
+
     def kleeneStar(self):
-        return Pattern(f"{self._raw}*", self._flags)
+        return self.quantify("*")
 
     def plus(self):
-        return Pattern(f"{self._raw}+", self._flags)
+        return self.quantify("+")
 
     def repeat(self, count):
         if isinstance(count, int):
-            return Pattern(f"{self._raw}{{{count}}}", self._flags)
+            return self.quantify(f"{{{count}}}")
         else:
             raise TypeError(f"Cannot repeat Pattern by {type(count)}")
 
-- 
2.43.0


From 85d3b470c3943cd2bbe851bffdf4d0d00d9d2b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 32/45] fix: wrap the Pattern | like longer alternations

---
 ptypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index c7cbe05..ae6158f 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -229,10 +229,10 @@ class Pattern(PipType):
         return copy
 
     def wrap(self):
-        if len(self._raw) > 1:
+        if len(self._raw) > 1 or self._raw == "|":
             return Pattern(f"(?:{self._raw})", self._flags)
         else:
-            # A length-1 regex doesn't need to be wrapped
+            # A length-1 regex (except |) doesn't need to be wrapped
             return self
 
     def group(self):
-- 
2.43.0


From b816e527c965fe03f703cb36655de07b793b7171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 33/45] fix: report code nested too deeply to parse instead of
 crashing

---
 pip.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pip.py b/pip.py
index 6eb843c..bba58cc 100644
--- a/pip.py
+++ b/pip.py
@@ -257,10 +257,11 @@ def pip(code=None, argv=None, interactive=True):
         print()
     try:
         parse_tree = parse(tokens)
-    except FatalError as err:
+    except (FatalError, RuntimeError) as err:
+        # RuntimeError probably means the code is nested too deeply
         print("Fatal error while parsing:", err, file=sys.stderr)
         print("Execution aborted.", file=sys.stderr)
-        raise
+        raise FatalError(str(err))
     if options.verbose:
         pprint.pprint(parse_tree)
         print()
@@ -287,11 +288,12 @@ def pip(code=None, argv=None, interactive=True):
                 raise
             try:
                 arg_parse_tree = parse(arg_tokens)
-            except FatalError as err:
+            except (FatalError, RuntimeError) as err:
+                # RuntimeError probably means the code is nested too deeply
                 print(f"Fatal error while parsing argument {arg!r}:",
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
-                raise
+                raise FatalError(str(err))
             parsed_arg = arg_parse_tree[0]
             try:
                 program_args.append(state.evaluate(parsed_arg))
@@ -344,10 +346,11 @@ def repl(list_format=None, warnings=False):
                         # incomplete string/expression/command; read
                         # another line, add it to the code, and try again
                         code += input(".. ") + "\n"
-            except BadSyntax as err:
+            except (BadSyntax, RuntimeError) as err:
                 # Error while scanning or parsing that cannot be
                 # resolved by adding more code to the end; give up
-                # on this code and start over
+                # on this code and start over (RuntimeError probably
+                # means the code is nested too deeply)
                 print("Syntax error:", err, file=sys.stderr)
                 continue
             # Some Pip comments are used as repl commands
-- 
2.43.0


From 9eb3a75432e512e464cbf47042b60f5ce2f7b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 34/45] fix: allow an escaped newline in a Pattern literal (X
 displays one)

---
 scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanning.py b/scanning.py
index 881ff16..3ba4b9a 100644
--- a/scanning.py
+++ b/scanning.py
@@ -14,7 +14,7 @@ nameRgx = re.compile(r"[A-Z]+"
                      r"|\$_{1,3}"
                      r"|\\[a-g]")
 stringRgx = re.compile(r'"[^"]*"')
-patternRgx = re.compile(r'`([^`\\]|\\.)*`')
+patternRgx = re.compile(r'`([^`\\]|\\(.|\n))*`')
 charRgx = re.compile(r"'(.|\n)")
 escStringRgx = re.compile(r'\\"(\\[^"]|[^\\])*\\"')
 numberRgx = re.compile(r'\d+(\.\d+)?')
-- 
2.43.0


From aa266845b2a8fb6ac69fc7bf6fd15029a1f9c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:57 +0000
Subject: [PATCH 35/45] fix: use the value of each -x argument, nil for an
 empty one

---
 pip.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pip.py b/pip.py
index bba58cc..0de7bf7 100644
--- a/pip.py
+++ b/pip.py
@@ -7,7 +7,7 @@ import pprint
 import version
 from scanning import scan, addSpaces
 from parsing import parse
-from ptypes import Scalar
+from ptypes import Scalar, nil
 from execution import ProgramState
 from errors import FatalError, BadSyntax, IncompleteSyntax
 
@@ -294,9 +294,15 @@ def pip(code=None, argv=None, interactive=True):
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
                 raise FatalError(str(err))
+            if not arg_parse_tree:
+                # Empty argument (or one containing only a comment)
+                program_args.append(nil)
+                continue
             parsed_arg = arg_parse_tree[0]
             try:
-                program_args.append(state.evaluate(parsed_arg))
+                # Get the value now: global variables are reset before
+                # the program is executed
+                program_args.append(state.getRval(state.evaluate(parsed_arg)))
             except (FatalError, RuntimeError) as err:
                 # RuntimeError probably means we exceeded Python's
                 # max recursion depth
-- 
2.43.0


From ea0b456e871dba29c640f53e57d36a0244c9358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:06 +0000
Subject: [PATCH 36/45] fix: return to the top level after an interruption in
 the REPL, wherever it came

---
 execution.py | 10 ++++++++++
 pip.py       |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/execution.py b/execution.py
index 75b8a7f..169b5ce 100644
--- a/execution.py
+++ b/execution.py
@@ -446,6 +446,16 @@ class ProgramState:
             self.localScope = None
         self.callDepth -= 1
 
+    def returnToTopLevel(self):
+        """Close all scopes but the outermost one.
+
+        Used by the REPL after execution was interrupted, which can
+        happen anywhere, even in the middle of opening or closing a scope.
+        """
+        del self.scopes[1:]
+        self.localScope = self.scopes[0]
+        self.callDepth = -1
+
     def updateHistoryVars(self, newValue):
         """Set $_ to new value and bump history vars down one spot."""
         if self.isDefined("$_"):
diff --git a/pip.py b/pip.py
index 0de7bf7..a0394d7 100644
--- a/pip.py
+++ b/pip.py
@@ -396,8 +396,10 @@ def repl(list_format=None, warnings=False):
             except (FatalError, RuntimeError) as err:
                 # RuntimeError probably means we exceeded Python's
                 # max recursion depth
+                state.returnToTopLevel()
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
+                state.returnToTopLevel()
                 print("Execution interrupted by user.", file=sys.stderr)
     except (KeyboardInterrupt, EOFError):
         pass
-- 
2.43.0


From c320f35df469b7048dd1e4549b9c1f2eb044fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 37/45] fix: halve and round large integers exactly

---
 execution.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/execution.py b/execution.py
index 169b5ce..dd8198f 100644
--- a/execution.py
+++ b/execution.py
@@ -22,6 +22,14 @@ SCALAR_ONE = Scalar("1")
 SCALAR_TWO = Scalar("2")
 
 
+def exactQuotient(number, divisor):
+    """Divide numbers; two integers give a Fraction instead of a float."""
+    if isinstance(number, int) and isinstance(divisor, int):
+        return Fraction(number, divisor)
+    else:
+        return number / divisor
+
+
 class ProgramState:
     """The internal state of a program during execution."""
     
@@ -1089,7 +1097,8 @@ class ProgramState:
                 return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(math.ceil(lhs / precision) * precision)
+                return Scalar(math.ceil(exactQuotient(lhs, precision))
+                              * precision)
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for CEIL:",
@@ -1741,7 +1750,8 @@ class ProgramState:
                 return Scalar(math.floor(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(math.floor(lhs / precision) * precision)
+                return Scalar(math.floor(exactQuotient(lhs, precision))
+                              * precision)
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for FLOOR:",
@@ -1859,7 +1869,7 @@ class ProgramState:
     def HALVE(self, rhs):
         """Halve and round down."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.floor(rhs.toNumber() / 2))
+            return Scalar(math.floor(exactQuotient(rhs.toNumber(), 2)))
         else:
             self.err.warn("Unimplemented argtype for HALVE:",
                           type(rhs))
@@ -1868,7 +1878,7 @@ class ProgramState:
     def HALVEUP(self, rhs):
         """Halve and round up."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.ceil(rhs.toNumber() / 2))
+            return Scalar(math.ceil(exactQuotient(rhs.toNumber(), 2)))
         else:
             self.err.warn("Unimplemented argtype for HALVEUP:",
                           type(rhs))
@@ -3440,6 +3450,11 @@ class ProgramState:
         if isinstance(lhs, Scalar) and precision is not None:
             if precision == 0:
                 return lhs
+            elif (isinstance(lhs.toNumber(), int)
+                    and isinstance(precision, int)):
+                # Avoid floats, so that large integers are exact
+                return Scalar(round(Fraction(lhs.toNumber(), precision))
+                              * precision)
             elif precision == 1:
                 lhs = lhs.toNumber()
                 if math.remainder(lhs, 1) > 0:
@@ -3474,7 +3489,8 @@ class ProgramState:
                 return Scalar(math.trunc(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(math.trunc(lhs / precision) * precision)
+                return Scalar(math.trunc(exactQuotient(lhs, precision))
+                              * precision)
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for ROUNDZERO:",
-- 
2.43.0


From e65121b94744930b3cd114f9f74bfa08bab953a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:46 +0000
Subject: [PATCH 38/45] fix: a failed item assignment leaves a Range variable
 as it was, even an infinite one

---
 execution.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index dd8198f..6756641 100644
--- a/execution.py
+++ b/execution.py
@@ -383,7 +383,12 @@ class ProgramState:
         if isinstance(currentVal, Range):
             # Can't modify a Range in place... cast it to a List first
             # This way we can do things like r:,9 r@4:42
-            currentVal = varTable[base] = List(currentVal)
+            if not currentVal.isFinite():
+                self.err.warn("Cannot assign to index of infinite Range",
+                              currentVal)
+                return
+            currentVal = List(currentVal)
+        baseVal = currentVal
         
         if isinstance(currentVal, (List, Scalar)):
             # Assignment to a subindex
@@ -410,6 +415,9 @@ class ProgramState:
                 currentVal[index] = rval.copy()
             except (IndexError, ZeroDivisionError, TypeError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
+            else:
+                # If the variable was a Range, now it becomes a List
+                varTable[base] = baseVal
             #!print(f"After assign, variable {base!r} is", varTable[base])
         else:
             # Not a subscriptable type
-- 
2.43.0


From 527474802e68184267e5881706f7dde0edb296d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:48 +0000
Subject: [PATCH 39/45] fix: don't swallow an interruption in FIND

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 6756641..a709119 100644
--- a/execution.py
+++ b/execution.py
@@ -1654,7 +1654,7 @@ class ProgramState:
               or isinstance(iterable, List)):
             try:
                 return Scalar(iterable.index(item))
-            except:
+            except ValueError:
                 # Item not found
                 return nil
         else:
-- 
2.43.0


From 91d1da97f0ec4dc5e98a456f12a0bba6096633a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:50 +0000
Subject: [PATCH 40/45] fix: group by a fractional size without accumulating
 rounding errors

---
 execution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/execution.py b/execution.py
index a709119..7458a3a 100644
--- a/execution.py
+++ b/execution.py
@@ -1849,6 +1849,9 @@ class ProgramState:
         if isinstance(iterable, PipIterable) and isinstance(rhs, Scalar):
             result = List()
             jump = rhs.toNumber()
+            if isinstance(jump, float) and math.isfinite(jump):
+                # Avoid accumulating rounding errors
+                jump = Fraction(str(jump))
             if jump > 0:
                 index = 0
                 while index < len(iterable):
-- 
2.43.0


From 042c0425d1d457d0023174c8429acffa52121f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:52 +0000
Subject: [PATCH 41/45] fix: MS returns nil when it cannot map

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 7458a3a..b742b21 100644
--- a/execution.py
+++ b/execution.py
@@ -2362,9 +2362,13 @@ class ProgramState:
 
         a MS b == $+(a M b)
         """
+        items = self.MAP(function, iterable)
+        if items is nil:
+            # MAP failed
+            return nil
         result = Scalar("0")
         plus = ops.opsByArity[2]["+"]
-        for item in self.MAP(function, iterable):
+        for item in items:
             result = self.evaluate([plus, result, item])
         return result
 
-- 
2.43.0


From 9b432bba36bb2cacb58466ab833080dd847fab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:54 +0000
Subject: [PATCH 42/45] fix: functions that differ only in meta-operators are
 not equal

---
 operators.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/operators.py b/operators.py
index b739261..a95d488 100644
--- a/operators.py
+++ b/operators.py
@@ -59,6 +59,15 @@ class Operator(tokens.Token):
         return (f"Operator({self},{self.function},{self.arity},"
                 f"{self.precedence},{self.associativity})")
 
+    def __eq__(self, rhs):
+        if isinstance(rhs, Operator):
+            # Operators that differ only in meta-operators aren't the same
+            return str(self) == str(rhs)
+        else:
+            return super().__eq__(rhs)
+
+    __hash__ = tokens.Operator.__hash__
+
     def copy(self):
         cpy = Operator(self._text,
                        self.function,
-- 
2.43.0


From be8968bf60e3a29e29ff38c6c19a1c3a9b822ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:53 +0000
Subject: [PATCH 43/45] fix: searching a List for a huge Range no longer spells
 the Range out

---
 ptypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptypes.py b/ptypes.py
index ae6158f..5100c4c 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -482,7 +482,7 @@ class List(PipIterable):
         try:
             return self._value.index(searchItem, startIndex)
         except ValueError:
-            raise ValueError(f"{searchItem} is not in List at index "
+            raise ValueError(f"{searchItem!r} is not in List at index "
                              f">= {startIndex}")
 
 
-- 
2.43.0


From 37c8a3bce66639074ab562aa7ca784bc1140bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:39 +0000
Subject: [PATCH 44/45] fix: warnings about a huge Range no longer spell the
 Range out

---
 errors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/errors.py b/errors.py
index 8da0780..e605cb2 100644
--- a/errors.py
+++ b/errors.py
@@ -35,4 +35,10 @@ class ErrorReporter:
 
 def rewritePtypes(message):
     """Convert references to Pip types in a message to just their names."""
+    # Imported here because ptypes itself (indirectly) imports this module
+    from ptypes import List, Range
+    if isinstance(message, (List, Range)):
+        # Show a value as source text, without spelling out Ranges (they may
+        # be huge)
+        message = repr(message)
     return re.sub(r"<class 'ptypes\.(\w+)'>", r"\1", str(message))
-- 
2.43.0


From 7ba80ec3c2c431fd1b782bddd59f8356dc60555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:59 +0000
Subject: [PATCH 45/45] fix: UW of a huge Range into an unusable number of
 strands no longer lists the Range

---
 execution.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index b742b21..8c4b09a 100644
--- a/execution.py
+++ b/execution.py
@@ -4242,8 +4242,6 @@ class ProgramState:
                 # Infinite Range, no can do
                 self.err.warn("Cannot UNWEAVE an infinite Range:", iterable)
                 return nil
-            else:
-                iterable = List(iterable)
         if (isinstance(iterable, PipIterable)
                 and isinstance(strands, (int, Scalar))):
             # Unweave the items from iterable into given number of "strands"
@@ -4258,7 +4256,7 @@ class ProgramState:
                 result[index % strands].append(item)
             if isinstance(iterable, Scalar):
                 result = List(self.JOIN(item) for item in result)
-            elif isinstance(iterable, List):
+            elif isinstance(iterable, (List, Range)):
                 result = List(List(item) for item in result)
             return result
         else:
-- 
2.43.0

