From 33f5addfc89d725c2f1ca88977d65b1917ea4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:31 +0000
Subject: [PATCH 01/35] fix: honor match priority of empty alternatives and
 lazy repeats

A match has priority over every edge placed after the insertion point of
an accepting vertex, so such edges are unreachable; keeping them made
e.g. a(c*|b) match 'ab'. Likewise the back edges of a repeated fragment
which prefers to be empty belong after the exit, as in ((a|b)*?)+b.
---
 src/lib/nfabuilder.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/nfabuilder.cpp b/src/lib/nfabuilder.cpp
index 39b4134..0cbc98c 100644
--- a/src/lib/nfabuilder.cpp
+++ b/src/lib/nfabuilder.cpp
@@ -315,8 +315,9 @@ void NFABuilder::plus(const ParseNode& n) {
   Fragment& repeat = Stack.top();
   repeat.N = n;
 
-  // make back edges
-  patch_pre(repeat.OutList, repeat.InList);
+  // make back edges, respecting the preference the repeated fragment
+  // has for being empty, if any
+  patch_mid(repeat.OutList, repeat.InList, repeat.Skippable);
 }
 
 void NFABuilder::plus_ng(const ParseNode& n) {
@@ -443,6 +444,12 @@ void NFABuilder::finish(const ParseNode& n) {
         return;
       }
       else {
+        // Edges at or after the insertion point have lower priority than
+        // matching here does, so they can never be followed.
+        for (uint32_t d = Fsm->outDegree(v); d > i->second; --d) {
+          Fsm->removeEdge(Fsm->outEdge(v, d-1));
+        }
+
         NFA::Vertex& final((*Fsm)[v]);
         final.Label = CurLabel;
         final.IsMatch = true;
-- 
2.43.0


From 0fc8cb386ef71802acd74c11069b126979d8f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:04 +0000
Subject: [PATCH 02/35] fix: keep alternatives after an empty one when not at
 the end

(a{0}|b)c was reduced to c, though b is reachable by backtracking when
something follows the alternation.
---
 src/lib/rewriter.cpp | 51 +++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index 79a6ab1..ed3da13 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -138,23 +138,25 @@ bool prefers_zero_length_match(const ParseNode* n) {
   }
 }
 
-bool has_only_zero_length_match(const ParseNode* n) {
+bool has_only_zero_length_match(const ParseNode* n, bool suffix) {
   switch (n->Type) {
   case ParseNode::REGEXP:
-    return !n->Child.Left || has_only_zero_length_match(n->Child.Left);
+    return !n->Child.Left || has_only_zero_length_match(n->Child.Left, suffix);
 
   case ParseNode::ALTERNATION:
-    // Left has priority, so we don't need to check right.
-    return has_only_zero_length_match(n->Child.Left);
+    // Left has priority, so we don't need to check right if nothing which
+    // could fail to match follows.
+    return has_only_zero_length_match(n->Child.Left, suffix) &&
+           (suffix || has_only_zero_length_match(n->Child.Right, suffix));
 
   case ParseNode::CONCATENATION:
-    return has_only_zero_length_match(n->Child.Left) &&
-           has_only_zero_length_match(n->Child.Right);
+    return has_only_zero_length_match(n->Child.Left, suffix) &&
+           has_only_zero_length_match(n->Child.Right, suffix);
 
   case ParseNode::REPETITION:
   case ParseNode::REPETITION_NG:
     return (n->Child.Rep.Min == 0 && n->Child.Rep.Max == 0) ||
-           has_only_zero_length_match(n->Child.Left);
+           has_only_zero_length_match(n->Child.Left, suffix);
 
   case ParseNode::DOT:
   case ParseNode::CHAR_CLASS:
@@ -168,16 +170,16 @@ bool has_only_zero_length_match(const ParseNode* n) {
   }
 }
 
-bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
+bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch, bool suffix) {
 
   // ST{0}Q = ST{0}?Q = T{0}QS = T{0}?Q = S
-  // R(S{0}Q|T) = (S{0}Q|T)R = R
+  // As a suffix, R(S{0}Q|T) = R; otherwise, (S{0}Q|T) = T??
   // (S|T{0}Q) = S?
 
   bool ret = false;
   branch.push(n);
 
-  if (has_only_zero_length_match(n)) {
+  if (has_only_zero_length_match(n, suffix)) {
     switch (n->Type) {
     case ParseNode::REGEXP:
       // prune the whole tree
@@ -208,15 +210,23 @@ bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
   else {
     switch (n->Type) {
     case ParseNode::REGEXP:
+      ret = reduceEmptySubtrees(n->Child.Left, branch, suffix);
+      break;
+
     case ParseNode::REPETITION:
     case ParseNode::REPETITION_NG:
-      ret = reduceEmptySubtrees(n->Child.Left, branch);
+      // an iteration which must be followed by another is not a suffix
+      ret = reduceEmptySubtrees(n->Child.Left, branch, suffix && n->Child.Rep.Min <= 1);
       break;
 
     case ParseNode::ALTERNATION:
+      ret = reduceEmptySubtrees(n->Child.Left, branch, suffix);
+      ret |= reduceEmptySubtrees(n->Child.Right, branch, suffix);
+      break;
+
     case ParseNode::CONCATENATION:
-      ret = reduceEmptySubtrees(n->Child.Left, branch);
-      ret |= reduceEmptySubtrees(n->Child.Right, branch);
+      ret = reduceEmptySubtrees(n->Child.Left, branch, false);
+      ret |= reduceEmptySubtrees(n->Child.Right, branch, suffix);
       break;
 
     case ParseNode::DOT:
@@ -238,20 +248,27 @@ bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
   // fix concatenations and alternations with dead children on the way up
   if (n->Type == ParseNode::CONCATENATION) {
     // convert ST{0} and T{0}S into S
-    if (has_only_zero_length_match(n->Child.Left)) {
+    if (has_only_zero_length_match(n->Child.Left, false)) {
       spliceOutParent(branch.top(), n, n->Child.Right);
     }
-    else if (has_only_zero_length_match(n->Child.Right)) {
+    else if (has_only_zero_length_match(n->Child.Right, suffix)) {
       spliceOutParent(branch.top(), n, n->Child.Left);
     }
   }
   else if (n->Type == ParseNode::ALTERNATION) {
-    if (has_only_zero_length_match(n->Child.Right)) {
+    if (has_only_zero_length_match(n->Child.Right, suffix)) {
       // convert S|T{0} into S?
       n->setType(ParseNode::REPETITION);
       n->Child.Rep.Min = 0;
       n->Child.Rep.Max = 1;
     }
+    else if (has_only_zero_length_match(n->Child.Left, suffix)) {
+      // convert T{0}|S into S??
+      n->Child.Left = n->Child.Right;
+      n->setType(ParseNode::REPETITION_NG);
+      n->Child.Rep.Min = 0;
+      n->Child.Rep.Max = 1;
+    }
   }
 
   return ret;
@@ -259,7 +276,7 @@ bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
 
 bool reduceEmptySubtrees(ParseNode* root) {
   std::stack<ParseNode*> branch;
-  return reduceEmptySubtrees(root, branch);
+  return reduceEmptySubtrees(root, branch, true);
 }
 
 bool prune_useless_repetitions(ParseNode* n, const std::stack<ParseNode*>& branch) {
-- 
2.43.0


From 73b1f8c56a7d776fcb63fbcc4937e5936b64ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:45 +0000
Subject: [PATCH 03/35] fix: do not treat the body of T{n,m}, n > 1, as a
 suffix

(ab*?){2,} was reduced as if b*? could always stop at once, though the
next iteration may need it to continue.
---
 src/lib/rewriter.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index ed3da13..fe67fb3 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -509,6 +509,12 @@ bool makeBinopsRightAssociative(ParseNode* root) {
   return makeBinopsRightAssociative(root, branch);
 }
 
+bool repetitionPreservesSuffix(const ParseNode* n) {
+  // The body of a repetition in a suffix is itself in a suffix only if no
+  // iteration has to be followed by another which might fail to match.
+  return n->Child.Rep.Min <= 1 || hasZeroLengthMatch(n->Child.Left);
+}
+
 bool reduceTrailingNongreedyThenGreedy(ParseNode* n, std::stack<ParseNode*>& branch) {
   // T{a,b}?T{c,d} == T{a+c,a+d}
 
@@ -525,9 +531,14 @@ bool reduceTrailingNongreedyThenGreedy(ParseNode* n, std::stack<ParseNode*>& bra
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
+    ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    break;
+
   case ParseNode::REPETITION:
   case ParseNode::REPETITION_NG:
-    ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    if (repetitionPreservesSuffix(n)) {
+      ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    }
     break;
 
   case ParseNode::ALTERNATION:
@@ -632,15 +643,22 @@ bool reduceTrailingNongreedyThenEmpty(ParseNode* n, std::stack<ParseNode*>& bran
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
-  case ParseNode::REPETITION:
     ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
     break;
 
+  case ParseNode::REPETITION:
+    if (repetitionPreservesSuffix(n)) {
+      ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
+    break;
+
   case ParseNode::REPETITION_NG:
     // replace S{n,m}? with S{n}
     n->setType(ParseNode::REPETITION);
     n->Child.Rep.Max = n->Child.Rep.Min;
-    reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    if (repetitionPreservesSuffix(n)) {
+      reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
     ret = true;
     break;
 
-- 
2.43.0


From 27eca314f29c190356382fa0172d2ce285be8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:47 +0000
Subject: [PATCH 04/35] fix: combine T{a,b}T{c,d} only where T{a+c,b+d} prefers
 the same matches

(a|ab)+(a|ab)+ matched 'aa' in 'aaba', because the combined repetition
may stop after two iterations before trying another way to match T.
---
 src/lib/rewriter.cpp | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index fe67fb3..8ffe239 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -354,12 +354,53 @@ bool reduceUselessRepetitions(ParseNode* root) {
   return reduceUselessRepetitions(root, branch);
 }
 
+const uint32_t NOT_FIXED = UNBOUNDED;
+
+uint32_t fixedLength(const ParseNode* n) {
+  // the number of characters in every match for n, if there is but one
+  switch (n->Type) {
+  case ParseNode::ALTERNATION:
+    {
+      const uint32_t l = fixedLength(n->Child.Left);
+      return l == fixedLength(n->Child.Right) ? l : NOT_FIXED;
+    }
+
+  case ParseNode::CONCATENATION:
+    {
+      const uint32_t l = fixedLength(n->Child.Left);
+      const uint32_t r = fixedLength(n->Child.Right);
+      return l == NOT_FIXED || r == NOT_FIXED ? NOT_FIXED : l + r;
+    }
+
+  case ParseNode::REPETITION:
+  case ParseNode::REPETITION_NG:
+    {
+      const uint32_t l = fixedLength(n->Child.Left);
+      return l == NOT_FIXED || n->Child.Rep.Min != n->Child.Rep.Max ?
+        NOT_FIXED : l * n->Child.Rep.Min;
+    }
+
+  case ParseNode::DOT:
+  case ParseNode::LITERAL:
+    return 1;
+
+  case ParseNode::CHAR_CLASS:
+    return n->Set.Breakout.Bytes.none() ? 1 : NOT_FIXED;
+
+  default:
+    return NOT_FIXED;
+  }
+}
+
 bool combinable(ParseNode* x, ParseNode* y) {
+  // If x might stop short of its maximum and T is ambiguous, then combining
+  // T{a,b}T{c,d} moves shorter matches ahead of other ways to match T.
   return
   (
     (x->Type == ParseNode::REPETITION && y->Type == ParseNode::REPETITION) ||
     (x->Type == ParseNode::REPETITION_NG && y->Type == ParseNode::REPETITION_NG)
-  ) && *x == *y;
+  ) && *x == *y &&
+  (x->Child.Rep.Min == x->Child.Rep.Max || fixedLength(x->Child.Left) != NOT_FIXED);
 }
 
 bool combineConsecutiveRepetitions(ParseNode* n, std::stack<ParseNode*>& branch) {
-- 
2.43.0


From 8137d0aa661fb1be9c6ccf8e3236d561064eedaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 05/35] fix: do not skip short buffers in starts_with

A buffer with more than one byte but too short for the filter was never
examined, so matches in it were missed.
---
 src/lib/vm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 7688743..a20bc0d 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -533,8 +533,9 @@ void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t
 
   const byte* const filterOff = beg+Prog->FilterOff;
 
-  if (end - beg == 1 || (filterOff < end - 1 &&
-      Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))]))
+  // the filter is inapplicable to a buffer too short to hold what it checks
+  if (filterOff >= end - 1 ||
+      Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))])
   {
     for (ThreadList::const_iterator t(First.begin()); t != First.end(); ++t) {
       Active.emplace_back(t->PC, Thread::NOLABEL, offset, Thread::NONE);
-- 
2.43.0


From 7190675f5526cfa233a49b6ab39659b2cc97873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 06/35] fix: count no bad values in an empty leading context

lg_read_window and lg_hit_context returned a count off by 2^32-1 when
there was no leading context.
---
 src/lib/lightgrep_c_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index 8282f2b..66c4bdc 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -168,7 +168,8 @@ namespace {
       }
     }
 
-    bad = std::numeric_limits<unsigned int>::max() - max_inv_bad;
+    // there is nothing bad in a leading context we didn't read
+    bad = cps.empty() ? 0 : std::numeric_limits<unsigned int>::max() - max_inv_bad;
 
     //
     // hit
-- 
2.43.0


From f47d0fd82ec5636cf9d8d92d05267596f91ad42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 07/35] fix: do not dereference a null error or read past a
 pattern slice

On failure lg_parse_pattern_slice and lg_add_pattern wrote through err
even when it was null, and the former copied the slice as if it were
null-terminated.
---
 src/lib/lightgrep_c_api.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index cefa0d9..6164ce1 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -101,8 +101,8 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
   };
 
   int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
-  if (result == 0) {
-    (*err)->Pattern = clone_c_str(pattern);
+  if (result == 0 && err && *err) {
+    (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
   }
 
   return result;
@@ -186,7 +186,7 @@ int lg_add_pattern(LG_HFSM hFsm,
     err
   );
 
-  if (result == -1) {
+  if (result == -1 && err && *err) {
     (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
     (*err)->EncodingChain = clone_c_str(encoding);
   }
-- 
2.43.0


From e9e091e1b57b621bd0b7c6500533cf9cab4a8e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 08/35] fix: set the source in errors from lg_add_pattern_list

Errors for unparsable patterns had no source, which is null when
Errors::outputErrors goes to print it.
---
 src/lib/lightgrep_c_api.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 6164ce1..4057343 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -201,12 +201,14 @@ namespace {
                   const std::string& pat,
                   LG_KeyOptions* keyOpts,
                   const E& encodings,
+                  const char* source,
                   int lnum,
                   LG_Error**& err)
   {
     lg_parse_pattern(hPat, pat.c_str(), keyOpts, err);
     if (*err) {
       (*err)->Index = lnum;
+      (*err)->Source = source ? clone_c_str(source) : nullptr;
       err = &((*err)->Next);
       return;
     }
@@ -215,6 +217,7 @@ namespace {
       lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err);
       if (*err) {
         (*err)->Index = lnum;
+        (*err)->Source = source ? clone_c_str(source) : nullptr;
         err = &((*err)->Next);
         continue;
       }
@@ -295,11 +298,11 @@ namespace {
           }
         }
 
-        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, err);
       }
       else {
         // use default encodings and options
-        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, source, lnum, err);
       }
     }
 
-- 
2.43.0


From 405e59008112b60b547a3f789f71cd5670a686ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 09/35] fix: report bad options per line and success from
 lg_add_pattern_list

A bad option column aborted the rest of the list and discarded the
errors before it; a list without errors returned -1; a null err
crashed on the first error.
---
 src/lib/lightgrep_c_api.cpp | 63 ++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 4057343..9680411 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -232,6 +232,8 @@ namespace {
                      const LG_KeyOptions* defaultOptions,
                      LG_Error** err)
   {
+    LG_Error** const firstErr = err;
+
     std::unique_ptr<PatternHandle,void(*)(PatternHandle*)> ph(
       lg_create_pattern(),
       lg_destroy_pattern
@@ -259,10 +261,8 @@ namespace {
       const tokenizer::const_iterator cend(ctok.end());
 
       if (ccur == cend) { // FIXME: is this possible?
-        if (err) {
-          *err = makeError("no pattern", nullptr, nullptr, source, lnum);
-          err = &((*err)->Next);
-        }
+        *err = makeError("no pattern", nullptr, nullptr, source, lnum);
+        err = &((*err)->Next);
         continue;
       }
 
@@ -277,26 +277,33 @@ namespace {
         const tokenizer etok(el, char_separator(","));
 
         if (etok.begin() == etok.end()) {
-          if (err) {
-            *err = makeError(
-              "no encoding list",
-              pat.c_str(), nullptr, source, lnum
-            );
-            err = &((*err)->Next);
-          }
+          *err = makeError(
+            "no encoding list",
+            pat.c_str(), nullptr, source, lnum
+          );
+          err = &((*err)->Next);
           continue;
         }
 
         // read the options
-        if (++ccur != cend) {
-          opts.FixedString = boost::lexical_cast<bool>(*ccur);
+        try {
           if (++ccur != cend) {
-            opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+            opts.FixedString = boost::lexical_cast<bool>(*ccur);
             if (++ccur != cend) {
-              opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+              if (++ccur != cend) {
+                opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              }
             }
           }
         }
+        catch (const boost::bad_lexical_cast&) {
+          *err = makeError(
+            "bad option", pat.c_str(), nullptr, source, lnum
+          );
+          err = &((*err)->Next);
+          continue;
+        }
 
         addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, err);
       }
@@ -306,7 +313,7 @@ namespace {
       }
     }
 
-    return err ? -1 : 0;
+    return err == firstErr ? 0 : -1;
   }
 }
 
@@ -318,25 +325,23 @@ int lg_add_pattern_list(LG_HFSM hFsm,
                         const LG_KeyOptions* defaultOptions,
                         LG_Error** err)
 {
-  // LG_Error* in_err = nullptr;
+  // collect the errors even if the caller is not interested in them
+  LG_Error* errors = nullptr;
 
   const int ret = trapWithRetval(
-    [hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err]() {
-      return addPatternList(hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err);
+    [hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, &errors]() {
+      return addPatternList(hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, &errors);
     },
     -1,
-    err
+    &errors
   );
 
-  // if (err) {
-  //   if (in_err) {
-  //     if (*err) {
-  //       // append the error from addPatternList to the chain
-  //       in_err->Next = *err;
-  //     }
-  //     *err = in_err;
-  //   }
-  // }
+  if (err) {
+    *err = errors;
+  }
+  else {
+    lg_free_error(errors);
+  }
 
   return ret;
 }
-- 
2.43.0


From 11b0ed80a9b0562419508947b3952858d49deb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:02 +0000
Subject: [PATCH 10/35] fix: keep the program file's buffer while its program
 is in use

lg_read_program does not copy the instructions, so --program-file
searched with freed memory.
---
 src/cmd/main.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index 50fa9e1..1c171e2 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -155,7 +155,7 @@ void searchRecursively(
 }
 
 std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)>
-loadProgram(const std::string& pfile) {
+loadProgram(const std::string& pfile, std::vector<char>& buf) {
   std::ifstream pin(pfile, std::ios::in | std::ios::binary);
   if (!pin) {
     std::cerr << "Could not open program file " << pfile << std::endl;
@@ -169,7 +169,8 @@ loadProgram(const std::string& pfile) {
   const std::streampos end = stream_size(pin);
   std::cerr << "program file is " << end << " bytes long" << std::endl;
 
-  std::vector<char> buf(end);
+  // the program refers to this buffer, so it must outlive the program
+  buf.resize(end);
   pin.read(&buf[0], end);
   pin.close();
 
@@ -290,11 +291,12 @@ void searchInputs(
 }
 
 void search(const Options& opts) {
+  std::vector<char> progBuf;
   std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)> prog(nullptr, nullptr);
 
   if (!opts.ProgramFile.empty()) {
     // read a program in from file
-    prog = loadProgram(opts.ProgramFile);
+    prog = loadProgram(opts.ProgramFile, progBuf);
   }
   else {
     LgAppCollection col = parsePatterns(opts);
-- 
2.43.0


From 18f7ccbdafad90b8f52d41bc23ebe77ac89c27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:29 +0000
Subject: [PATCH 11/35] fix: exit nonzero when validate finds a pattern which
 cannot be parsed

---
 src/cmd/main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index 1c171e2..e1856e6 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -424,11 +424,12 @@ void writeGraphviz(const Options& opts) {
   writeGraphviz(opts.openOutput(), *fsm->Impl->Fsm);
 }
 
-void validate(const Options& opts) {
+bool validate(const Options& opts) {
   LgAppCollection col = parsePatterns(opts);
 
   const bool printFilename = opts.CmdLinePatterns.empty() && opts.KeyFiles.size() > 1;
   col.errors->outputErrors(std::cerr, printFilename);
+  return !col.getError();
 }
 
 void writeSampleMatches(const Options& opts) {
@@ -498,8 +499,7 @@ int main(int argc, char** argv) {
       writeSampleMatches(opts);
       break;
     case Options::VALIDATE:
-      validate(opts);
-      break;
+      return validate(opts) ? 0 : 1;
     case Options::SHOW_VERSION:
       printVersion(std::cout);
       break;
-- 
2.43.0


From 6ca062164557a5ff61f4d18648914acf77514856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 12/35] fix: reject repetition bounds which overflow

a{4294967297} was accepted as a{1}.
---
 src/lib/re_grammar.ypp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index a1365c0..9e3dc3c 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -7,6 +7,7 @@
 #include "encoders/utf8.h"
 
 #include <iomanip>
+#include <limits>
 #include <sstream>
 #include <stack>
 #include <string>
@@ -53,6 +54,7 @@ namespace {
     enum {
       NONATOMIC_REPETITON,
       REVERSED_REPETITION_BOUNDS,
+      OVERSIZED_REPETITION_BOUND,
       INVALID_ESCAPE,
       UNMATCHED_PARENTHESIS,
       UNMATCHED_BRACKET,
@@ -297,6 +299,15 @@ number:
 | number DIGIT
   {
     $$ = $1;
+    if ($$->Val > (std::numeric_limits<int>::max() - ($2 - 48)) / 10) {
+      throwError(
+        {
+          ParseError::OVERSIZED_REPETITION_BOUND,
+          @1.first_column, @2.last_column
+        },
+        ctx
+      );
+    }
     $$->Val = $$->Val*10 + ($2 - 48);
   }
 ;
@@ -1460,6 +1471,9 @@ namespace {
     case ParseError::REVERSED_REPETITION_BOUNDS:
       ss << e.First << " > " << e.Second << " in ";
       break;
+    case ParseError::OVERSIZED_REPETITION_BOUND:
+      ss << "repetition bound is too large in ";
+      break;
     case ParseError::INVALID_ESCAPE:
       ss << "invalid escape ";
       break;
-- 
2.43.0


From 0915562c67d62661d5ec88b7b4ab9f0683ae76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 13/35] fix: declare 64-bit user indices and search results as
 such in Python

User indices were truncated to 32 bits, and Context.search() returned
None instead of 0.
---
 pylightgrep/lightgrep/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 8bdc9af..94975de 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -538,7 +538,7 @@ _LG.lg_create_fsm.restype = c_void_p
 _LG.lg_destroy_fsm.argtypes = [c_void_p]
 _LG.lg_destroy_fsm.restype = None
 
-_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_int, POINTER(POINTER(Err))]
+_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_uint64, POINTER(POINTER(Err))]
 _LG.lg_add_pattern.restype = c_int
 
 _LG.lg_add_pattern_list.argtypes = [c_void_p, c_char_p, c_char_p, POINTER(c_char_p), c_uint, POINTER(KeyOpts), POINTER(POINTER(Err))]
@@ -584,7 +584,7 @@ _LG.lg_reset_context.argtypes = [c_void_p]
 _LG.lg_reset_context.restype = None
 
 _LG.lg_search.argtypes = [c_void_p, POINTER(c_char), POINTER(c_char), c_uint64, py_object, _CBType]
-_LG.lg_search.restype = c_void_p
+_LG.lg_search.restype = c_uint64
 
 _LG.lg_closeout_search.argtypes = [c_void_p, py_object, _CBType]
 _LG.lg_closeout_search.restype = None
-- 
2.43.0


From 01089b19b2d22c31f35968584701659bc92ed35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 14/35] fix: keep the buffer from which a Python Program was
 read alive

---
 pylightgrep/lightgrep/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 94975de..1724f01 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -361,6 +361,9 @@ class Program(Handle):
 
         super().__init__(handle)
 
+        # a program read from a buffer refers to it, so keep it alive
+        self.buf = args[0] if len(args) == 1 else None
+
     @staticmethod
     def from_buffer(buf):
         # unserialize program from a buffer
-- 
2.43.0


From 71193e70b2b8543dae3bbf3c8c6e0af5f8c4e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 15/35] fix: refuse to add a pattern which was not parsed

---
 src/lib/lightgrep_c_api.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 9680411..07ea047 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -101,8 +101,13 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
   };
 
   int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
-  if (result == 0 && err && *err) {
-    (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
+  if (result == 0) {
+    // leave no partial or stale tree behind to be added later
+    hPattern->Tree.init(0);
+
+    if (err && *err) {
+      (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
+    }
   }
 
   return result;
@@ -147,6 +152,10 @@ void lg_destroy_fsm(LG_HFSM hFsm) {
 
 namespace {
   int addPattern(LG_HFSM hFsm, LG_HPATTERN hPattern, const char* encoding, uint64_t userIndex) {
+    if (!hPattern->Tree.Root) {
+      THROW_RUNTIME_ERROR_WITH_CLEAN_OUTPUT("Pattern has not been parsed successfully");
+    }
+
     const uint32_t label = hFsm->PMap->count();
     hFsm->Impl->addPattern(hPattern->Tree, encoding, label);
 
-- 
2.43.0


From 5b79e1b374f33a75674056826231a895ffdacd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 16/35] fix: locate the end of an empty pattern

---
 src/lib/re_grammar.ypp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index 9e3dc3c..9de8f60 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -1307,7 +1307,7 @@ namespace {
   }
 
   int yylex(YYSTYPE* yylval, YYLTYPE* yylloc, Context* ctx) {
-    yylloc->first_column = ctx->Text - ctx->TextBegin;
+    yylloc->first_column = yylloc->last_column = ctx->Text - ctx->TextBegin;
 
     ctx->TokenType = -1;  // EOF
 
-- 
2.43.0


From 2afa48124855ae98dac6193cb64f3962937998bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 17/35] fix: bound a jump table with a single byte value by
 that value

When all edges of a state which is given a jump table go by one byte value
(some of them parallel), the size was computed for one entry but the table
was written up to 255, past the end of the program or into other states.
---
 src/lib/compiler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/compiler.cpp b/src/lib/compiler.cpp
index 8102def..379e192 100644
--- a/src/lib/compiler.cpp
+++ b/src/lib/compiler.cpp
@@ -46,9 +46,9 @@ std::tuple<uint32_t, uint32_t> minAndMaxValues(const std::vector<std::vector<NFA
       break;
     }
   }
-  for (uint32_t i = 255; i > first; --i) {
-    if (!tbl[i].empty()) {
-      last = i;
+  // when there is but one value, it is both the first and the last
+  for (last = 255; last > first; --last) {
+    if (!tbl[last].empty()) {
       break;
     }
   }
-- 
2.43.0


From 11901c2efbccb1761e145f5e9eb838c3a1cce218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 18/35] fix: do not read past the end of a pattern which ends
 within a UTF-8 sequence

---
 include/unicode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode.h b/include/unicode.h
index 47bfe35..9ad5adb 100644
--- a/include/unicode.h
+++ b/include/unicode.h
@@ -24,7 +24,7 @@
 #define CONTINUATION(cp, i, end, used) \
   if (++i == end) { \
     cp = -1; \
-    return used; \
+    return used - 1; \
   } \
   b = *i & 0xFF; \
   if (b < 0x80 || 0xBF < b) { \
-- 
2.43.0


From 8b6f8140e7aeeb4c16cc516898e9ef4ba224f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 19/35] fix: let the preferred standard decide what an
 ambiguous encoding name means

Both names which were compared were the alias itself, so the first encoding
to claim an alias always kept it: windows-949, windows-950, cp932, TIS-620
and others named other encodings than their standards say.
---
 src/enc/encodings.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/enc/encodings.cpp b/src/enc/encodings.cpp
index 5605a67..3c64980 100644
--- a/src/enc/encodings.cpp
+++ b/src/enc/encodings.cpp
@@ -153,23 +153,23 @@ extern "C" {
         longest = std::max(longest, strlen(aname));
       }
       else {
-        // check which standards define the old and new aliases
+        // the most preferred standard which knows this alias decides
         for (const std::string& std : standards) {
-          const char* sname = std.c_str();
+          UErrorCode serr = U_ZERO_ERROR;
+          const char* std_cname = ucnv_getCanonicalName(aname, std.c_str(), &serr);
 
-          const char* olds = ucnv_getStandardName(x.first->first.c_str(), sname, &err);
-          throw_on_error(err);
-
-          const char* news = ucnv_getStandardName(aname, sname, &err);
-          throw_on_error(err);
+          if (U_FAILURE(serr) || !std_cname) {
+            // alias does not exist in std
+            continue;
+          }
 
-          if (olds) {
-            // olds exists in std, keep it
+          if (canonical[x.first->second] == std_cname) {
+            // alias in std is the old encoding, keep it
             break;
           }
-          else if (news) {
-            // olds does not exist in std, but news does, replace olds
-            idmap[aname] = i;
+          else if (!strcmp(cname, std_cname)) {
+            // alias in std is the new encoding, replace old
+            x.first->second = canonical.size()-1;
             break;
           }
         }
-- 
2.43.0


From 2824419530a5b87d14f6a4d0626c9345f6c876b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 20/35] fix: accept an empty buffer at a null pointer

The filter's end was computed before the beginning of the buffer, where it
wraps around for a null pointer, so that lg_search and lg_starts_with ran off.
---
 src/lib/vm.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index a20bc0d..3fb11f9 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -531,11 +531,9 @@ void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t
   const Instruction* const base = &(*Prog)[0];
   uint64_t offset = startOffset;
 
-  const byte* const filterOff = beg+Prog->FilterOff;
-
   // the filter is inapplicable to a buffer too short to hold what it checks
-  if (filterOff >= end - 1 ||
-      Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))])
+  if (end - beg <= static_cast<ptrdiff_t>(Prog->FilterOff) + 1 ||
+      Prog->Filter[*(reinterpret_cast<const uint16_t*>(beg + Prog->FilterOff))])
   {
     for (ThreadList::const_iterator t(First.begin()); t != First.end(); ++t) {
       Active.emplace_back(t->PC, Thread::NOLABEL, offset, Thread::NONE);
@@ -579,7 +577,9 @@ uint64_t Vm::search(const byte* const beg, const byte* const end, const uint64_t
   const Instruction* const base = &(*Prog)[0];
 
   const std::bitset<256*256>& filter = Prog->Filter;
-  const byte* const filterEnd = end - Prog->FilterOff - 1;
+  // the filter looks at the two bytes at FilterOff, which must be in the buffer
+  const byte* const filterEnd =
+    end - beg > static_cast<ptrdiff_t>(Prog->FilterOff) + 1 ? end - Prog->FilterOff - 1 : beg;
 
   uint64_t offset = startOffset;
 
-- 
2.43.0


From 7c8b968b451c5d6ea0b82b7cc017a374d1aca927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 21/35] fix: search on after an empty file which is to be
 memory-mapped

An empty file cannot be mapped, and the exception ended the whole search.
---
 src/cmd/reader.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cmd/reader.cpp b/src/cmd/reader.cpp
index bc7d8b1..da10880 100644
--- a/src/cmd/reader.cpp
+++ b/src/cmd/reader.cpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <cerrno>
 #include <cstring>
+#include <filesystem>
 #include <stdexcept>
 
 #include "reader.h"
@@ -37,6 +38,13 @@ FILE* try_open(const std::string& path) {
   }
 }
 
+bip::mapped_region map_all(const bip::file_mapping& m, const std::string& path) {
+  // an empty file cannot be mapped
+  std::error_code ec;
+  return std::filesystem::file_size(path, ec) == 0 ?
+    bip::mapped_region() : bip::mapped_region(m, bip::read_only);
+}
+
 }
 
 FileReader::FileReader(const std::string& path, size_t blockSize):
@@ -67,7 +75,7 @@ std::future<std::pair<const char*, size_t>> FileReader::read(size_t len){
 }
 
 MemoryMappedFileReader::MemoryMappedFileReader(const std::string& path):
-  M(path.c_str(), bip::read_only), R(M, bip::read_only),
+  M(path.c_str(), bip::read_only), R(map_all(M, path)),
   Buf(static_cast<const char*>(R.get_address())), Bend(Buf + R.get_size())
 {
   R.advise(bip::mapped_region::advice_sequential);
-- 
2.43.0


From 0761197ee2f2f875e0359b752b51f62f6c9bdb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:10 +0000
Subject: [PATCH 22/35] fix: search regular files only in a recursive search

A dangling link ended the whole search, and a pipe blocked it.
---
 src/cmd/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index e1856e6..2480720 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -148,7 +148,9 @@ void searchRecursively(
   const fs::recursive_directory_iterator end;
   for (fs::recursive_directory_iterator d(path); d != end; ++d) {
     const fs::path p(d->path());
-    if (!fs::is_directory(p)) {
+    // what is no regular file (a dangling link, a pipe) has nothing to search
+    std::error_code ec;
+    if (fs::is_regular_file(p, ec)) {
       search(p.string(), mmapped, ctrl, searcher, hinfo, callback);
     }
   }
-- 
2.43.0


From d39a07b285f18adf705a6fd106ac840e0f5ec45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 23/35] fix: refuse a block size of zero

Nothing was searched, without notice.
---
 src/cmd/options.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmd/options.cpp b/src/cmd/options.cpp
index 7eeac50..b08a26f 100644
--- a/src/cmd/options.cpp
+++ b/src/cmd/options.cpp
@@ -190,6 +190,10 @@ void Options::validateAndPopulateSearchOptions(const po::variables_map& optsMap,
     Inputs.push_back("-");
   }
 
+  if (BlockSize == 0) {
+    throw po::error("--block-size must be positive");
+  }
+
   if (MemoryMapped && std::find(Inputs.begin(), Inputs.end(), "-") != Inputs.end()) {
     throw po::error("--mmap is incompatible with reading from stdin");
   }
-- 
2.43.0


From 1a88dcb53f13b4563225ffe52d82a87eee5c60a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 24/35] fix: decode hits which span blocks or are reported at
 the end of the data

The callback was given only the block being searched, so a hit which began in
an earlier block, or which was reported on closing out the search, had its
histogram text and its context decoded from memory outside the block.
---
 include/reader.h             |  7 +++++++
 src/cmd/searchcontroller.cpp | 38 ++++++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/include/reader.h b/include/reader.h
index 78d77b8..f290e46 100644
--- a/include/reader.h
+++ b/include/reader.h
@@ -30,6 +30,9 @@ public:
   virtual ~Reader() {}
 
   virtual std::future<std::pair<const char*, size_t>> read(size_t len) = 0;
+
+  // all of the data, if it is in memory at once; a null pointer otherwise
+  virtual std::pair<const char*, size_t> all() const { return {nullptr, 0}; }
 };
 
 class FileReader: public Reader {
@@ -53,6 +56,10 @@ public:
 
   virtual std::future<std::pair<const char*, size_t>> read(size_t len) override;
 
+  virtual std::pair<const char*, size_t> all() const override {
+    return {static_cast<const char*>(R.get_address()), R.get_size()};
+  }
+
 private:
   bip::file_mapping M;
   bip::mapped_region R;
diff --git a/src/cmd/searchcontroller.cpp b/src/cmd/searchcontroller.cpp
index 7f051df..a47c472 100644
--- a/src/cmd/searchcontroller.cpp
+++ b/src/cmd/searchcontroller.cpp
@@ -23,6 +23,7 @@
 #include <iostream>
 #include <thread>
 #include <utility>
+#include <vector>
 
 void print_cumulative_stats(double seconds, uint64_t offset) {
   uint64_t units = offset >> 20;
@@ -47,15 +48,42 @@ bool SearchController::searchFile(
 
   const char* buf;
 
+  // Hits may begin before the block in which they are found, and may have
+  // context on both sides of it, so what they are decoded from is all of the
+  // data, or else everything from where a hit might have begun.
+  const std::pair<const char*, size_t> all = reader.all();
+  std::vector<char> pending;
+  uint64_t pendingOff = 0;
+
+  const auto searchBlock = [&]() {
+    const bool keep = !all.first && hinfo->HistInfo.HistogramEnabled;
+    if (all.first) {
+      hinfo->setBuffer(all.first, all.second, 0);
+    }
+    else if (keep) {
+      pending.insert(pending.end(), buf, buf + blkSize);
+      hinfo->setBuffer(pending.data(), pending.size(), pendingOff);
+    }
+    else {
+      hinfo->setBuffer(buf, blkSize, offset);
+    }
+
+    const uint64_t live = lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
+
+    if (keep && blkSize) {
+      const uint64_t dead = std::min<uint64_t>(live - pendingOff, pending.size());
+      pending.erase(pending.begin(), pending.begin() + dead);
+      pendingOff += dead;
+    }
+  };
+
   std::tie(buf, blkSize) = reader.read(BlockSize).get();
   while (blkSize) {
     // start getting next block
     std::future<std::pair<const char*, size_t>> fut = reader.read(BlockSize);
 
     // search cur block
-    hinfo->setBuffer(buf, blkSize, offset);
-
-    lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
+    searchBlock();
 
     offset += blkSize;
 
@@ -70,9 +98,7 @@ bool SearchController::searchFile(
 
   // assert: all data has been read, offset + blkSize == file size,
   // cur is last block
-  hinfo->setBuffer(buf, blkSize, offset);
-
-  lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
+  searchBlock();
 
   lg_closeout_search(searcher, hinfo, callback);
   offset += blkSize;  // be sure to count the last block
-- 
2.43.0


From a8af60c446b785ad75cf6cb6cc06013326585e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 25/35] fix: generate only matching samples, and no more than
 asked for

After backtracking the vertex backtracked to was put on the path a second time,
so its byte appeared twice in the sample. An extended match could exceed the
limit, and without any pattern the generator ran off the empty path.
---
 src/lib/matchgen.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/matchgen.cpp b/src/lib/matchgen.cpp
index bb3afbc..9139b2c 100644
--- a/src/lib/matchgen.cpp
+++ b/src/lib/matchgen.cpp
@@ -56,7 +56,7 @@ byte chooseByte(const ByteSet& allowed, RNG& rng) {
 
 void matchgen(const NFA& g, std::set<std::string>& matches,
               const uint32_t maxMatches, const uint32_t maxLoops) {
-  if (maxMatches == 0) {
+  if (maxMatches == 0 || g.verticesSize() == 0 || g.outDegree(0) == 0) {
     return;
   }
 
@@ -93,6 +93,9 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
 
         // report the match
         matches.insert(match);
+        if (matches.size() >= maxMatches) {
+          return;
+        }
 
         // should we try to extend the match?
         if (extend(rng)) {
@@ -148,7 +151,14 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
       if (scount == 0) {
         // backtrack if all successors exhausted
         path.pop_back();
+        if (path.empty()) {
+          break;
+        }
         v = path.back();
+
+        // v is still on the path and will be visited again
+        path.pop_back();
+        --seen[v];
       }
       else {
         // otherwise move on to s
-- 
2.43.0


From b2e1df148a5a8c472bec959bcccf573485966671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 26/35] fix: take patterns on the command line as they are

They went through a pattern list, so a tab or a newline in a pattern ended it,
and an empty pattern made its encoding the pattern.
---
 src/cmd/lg_app.cpp | 53 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/cmd/lg_app.cpp b/src/cmd/lg_app.cpp
index e667b63..d740de2 100644
--- a/src/cmd/lg_app.cpp
+++ b/src/cmd/lg_app.cpp
@@ -19,7 +19,9 @@
 
 #include "options.h"
 #include "program.h"
+
 #include <iostream>
+#include <sstream>
 
 namespace {
   // the lifetime of the input vec must exceed that of the returned array
@@ -40,13 +42,51 @@ namespace {
   LG_ProgramOptions progOpts(const Options& opts) {
     return { opts.DeterminizeDepth };
   }
+
+  void addPattern(
+    LG_HFSM fsm,
+    const std::string& pattern,
+    size_t index,
+    const std::vector<std::string>& encodings,
+    const LG_KeyOptions& kOpts,
+    Errors& errors)
+  {
+    std::unique_ptr<PatternHandle, void(*)(PatternHandle*)> ph(
+      lg_create_pattern(),
+      lg_destroy_pattern
+    );
+
+    LG_Error* err = nullptr;
+    const auto report = [&]() {
+      if (err) {
+        err->Index = index;
+        errors.extend(err);
+        err = nullptr;
+      }
+    };
+
+    if (!lg_parse_pattern(ph.get(), pattern.c_str(), &kOpts, &err)) {
+      report();
+      return;
+    }
+
+    for (const std::string& list : encodings) {
+      // each of the encodings may be a list of encodings
+      std::istringstream in(list);
+      for (std::string enc; std::getline(in, enc, ','); ) {
+        if (!enc.empty()) {
+          lg_add_pattern(fsm, ph.get(), enc.c_str(), index, &err);
+          report();
+        }
+      }
+    }
+  }
 }
   
 LgAppCollection parsePatterns(const Options& opts)
 {
   // read the patterns and parse them
 
-  const std::vector<std::pair<std::string, std::string>>& patLines(opts.getPatternLines());
   const std::vector<std::string>& defaultEncodings(opts.Encodings);
   const LG_KeyOptions& defaultKOpts(patOpts(opts));
   const LG_ProgramOptions& defaultProgOpts(progOpts(opts));
@@ -66,6 +106,17 @@ LgAppCollection parsePatterns(const Options& opts)
 
   std::unique_ptr<Errors> errors(new Errors());
 
+  // Patterns from the command line are taken as they are: put into a pattern
+  // list, one which is empty or has tabs or newlines would read otherwise.
+  for (size_t i = 0; i < opts.CmdLinePatterns.size(); ++i) {
+    addPattern(fsm.get(), opts.CmdLinePatterns[i], i, defaultEncodings, defaultKOpts, *errors);
+  }
+
+  std::vector<std::pair<std::string, std::string>> patLines;
+  if (opts.CmdLinePatterns.empty()) {
+    patLines = opts.getPatternLines();
+  }
+
   for (const std::pair<std::string, std::string>& pf : patLines) {
     // parse a complete pattern file
     LG_Error* local_err = nullptr;
-- 
2.43.0


From 50f73c7370eefa9e7a451d6078a14776e46830a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 27/35] fix: report the error of a sample when it concerns no
 single pattern

---
 src/cmd/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index 2480720..fb1000a 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -457,7 +457,7 @@ void writeSampleMatches(const Options& opts) {
 
   if (err) {
     out << err->Message << " on pattern " << pnum
-        << ", '"<< err->Pattern << "'\n";
+        << ", '"<< (err->Pattern ? err->Pattern : "") << "'\n";
   }
   else {
     // break on through the C API to get the graph
-- 
2.43.0


From 5efab2cac922c82d0a28df34e702f68ffae6a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 28/35] fix: pass strings between Java and the library as UTF-8

---
 src/java/jni/jlightgrep.cpp | 106 +++++++++++++++++++++++++++---------
 1 file changed, 79 insertions(+), 27 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 2487c1c..c0f7615 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -24,7 +24,9 @@
 #include <limits>
 #include <memory>
 #include <sstream>
+#include <string>
 #include <tuple>
+#include <vector>
 
 static const char ALL_IS_LOST[] = "Fuck it, Dude. Let's go bowling.";
 
@@ -50,12 +52,42 @@ static void throwIfException(JNIEnv* env) {
   }
 }
 
+static jstring newString(JNIEnv* env, const char* utf8) {
+  std::vector<jchar> u;
+  for (const char* i = utf8; *i; ) {
+    const unsigned char b = *i++;
+    const int len = b < 0x80 ? 0 : b < 0xE0 ? 1 : b < 0xF0 ? 2 : 3;
+    uint32_t cp = len == 0 ? b : b & (0x3F >> len);
+    for (int j = 0; j < len && (*i & 0xC0) == 0x80; ++j) {
+      cp = (cp << 6) | (*i++ & 0x3F);
+    }
+
+    if (cp < 0x10000) {
+      u.push_back(cp);
+    }
+    else {
+      u.push_back(0xD800 + ((cp - 0x10000) >> 10));
+      u.push_back(0xDC00 + ((cp - 0x10000) & 0x3FF));
+    }
+  }
+
+  jstring str = env->NewString(u.data(), u.size());
+  throwIfException(env);
+  return str;
+}
+
 static void throwException(JNIEnv* env, const char* exClassName, const char* message) {
   jclass ex = env->FindClass(exClassName);
-  if (!env->ExceptionCheck()) {
-    if (env->ThrowNew(ex, message)) {
-      env->FatalError(ALL_IS_LOST);
-    }
+  throwIfException(env);
+
+  jmethodID ctor = env->GetMethodID(ex, "<init>", "(Ljava/lang/String;)V");
+  throwIfException(env);
+
+  jobject obj = env->NewObject(ex, ctor, newString(env, message));
+  throwIfException(env);
+
+  if (env->Throw(static_cast<jthrowable>(obj))) {
+    env->FatalError(ALL_IS_LOST);
   }
 
   throw PendingJavaException();
@@ -230,20 +262,43 @@ template <typename T> T unwrap(JNIEnv* env, jobject handle) {
 }
 */
 
-static std::unique_ptr<const char,std::function<void(const char*)>> unwrap(JNIEnv* env, jstring str) {
-  using namespace std::placeholders;
+// NB: GetStringUTFChars() and NewStringUTF() speak "modified UTF-8", in which
+// characters beyond U+FFFF are pairs of encoded surrogates. We want UTF-8.
 
-  std::unique_ptr<const char,std::function<void(const char*)>> ptr(
-    env->GetStringUTFChars(str, nullptr),
-    std::bind(&JNIEnv::ReleaseStringUTFChars, env, str, _1)
-  );
+static std::string unwrap(JNIEnv* env, jstring str) {
+  const jsize len = env->GetStringLength(str);
+  std::vector<jchar> u(len);
+  env->GetStringRegion(str, 0, len, u.data());
+  throwIfException(env);
 
-  if (!ptr) {
-    // OutOfMemoryError already thrown
-    throw PendingJavaException();
-  }
+  std::string s;
+  for (jsize i = 0; i < len; ++i) {
+    uint32_t cp = u[i];
+    if (0xD800 <= cp && cp < 0xDC00 && i + 1 < len && 0xDC00 <= u[i+1] && u[i+1] < 0xE000) {
+      cp = 0x10000 + ((cp - 0xD800) << 10) + (u[++i] - 0xDC00);
+    }
 
-  return ptr;
+    if (0 < cp && cp < 0x80) {
+      s += (char) cp;
+    }
+    else if (cp < 0x800) {
+      // a null goes here too, so as not to end the string
+      s += (char) (0xC0 | (cp >> 6));
+      s += (char) (0x80 | (cp & 0x3F));
+    }
+    else if (cp < 0x10000) {
+      s += (char) (0xE0 | (cp >> 12));
+      s += (char) (0x80 | ((cp >> 6) & 0x3F));
+      s += (char) (0x80 | (cp & 0x3F));
+    }
+    else {
+      s += (char) (0xF0 | (cp >> 18));
+      s += (char) (0x80 | ((cp >> 12) & 0x3F));
+      s += (char) (0x80 | ((cp >> 6) & 0x3F));
+      s += (char) (0x80 | (cp & 0x3F));
+    }
+  }
+  return s;
 }
 
 static std::unique_ptr<void,std::function<void(void*)>> unwrapCrit(JNIEnv* env, jbyteArray buffer) {
@@ -310,7 +365,7 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
 
 // TODO: C++11 stuff.
 
-    std::unique_ptr<const char,std::function<void(const char*)>> pat(unwrap(env, pattern));
+    const std::string pat(unwrap(env, pattern));
 
     LG_KeyOptions opts{
       env->GetBooleanField(options, keyOptionsFixedStringField) != 0,
@@ -321,7 +376,7 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
     // finally actually do something
     const int ret = lg_parse_pattern(
       ptr,
-      pat.get(),
+      pat.c_str(),
       &opts,
       &err
     );
@@ -366,11 +421,9 @@ static jobject makePatternInfo(JNIEnv* env, LG_PatternInfo* pinfo) {
   jclass cl = env->FindClass(patternInfoClassName);
   throwIfException(env);
 
-  jstring pat = env->NewStringUTF(pinfo->Pattern);
-  throwIfException(env);
+  jstring pat = newString(env, pinfo->Pattern);
 
-  jstring enc = env->NewStringUTF(pinfo->EncodingChain);
-  throwIfException(env);
+  jstring enc = newString(env, pinfo->EncodingChain);
 
   jint idx = pinfo->UserIndex;
 
@@ -514,13 +567,13 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_FSMHandle_addPatt
       env->GetLongField(hPattern, handlePointerField)
     );
 
-    std::unique_ptr<const char,std::function<void(const char*)>> enc(unwrap(env, encoding));
+    const std::string enc(unwrap(env, encoding));
 
     // finally actually do something
     const int ret = lg_add_pattern(
       fsmptr,
       patptr,
-      enc.get(),
+      enc.c_str(),
       idx,
       &err
     );
@@ -815,8 +868,7 @@ static jobject makeHitContext(JNIEnv* env, const LG_Window& outer, const LG_Wind
   jclass cl = env->FindClass(hitContextClassName);
   throwIfException(env);
 
-  jstring decoded = env->NewStringUTF(utf8);
-  throwIfException(env);
+  jstring decoded = newString(env, utf8);
 
   jobject hc = env->NewObject(
     cl, hitContextCtor, outer.begin, outer.end,
@@ -837,7 +889,7 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
 
   const LG_Window inner{ (uint64_t) ibegin, (uint64_t) iend };
 
-  std::unique_ptr<const char,std::function<void(const char*)>> enc(unwrap(env, encoding));
+  const std::string enc(unwrap(env, encoding));
 
   LG_Window outer, decodedHit;
   const char* utf8;
@@ -851,7 +903,7 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
     buf + size,
     (uint64_t) startOffset,
     &inner,
-    enc.get(),
+    enc.c_str(),
     windowSize,
     replacement,
     &utf8,
-- 
2.43.0


From f8e41ce2c32d828eb0307de2ca383e7f37a581b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:30 +0000
Subject: [PATCH 29/35] fix: let Java read a program, and keep the memory it
 was read from

---
 src/java/jni/jlightgrep.cpp                   | 20 ++++++----------
 .../lightgrep/ContextHandle.java              |  3 +++
 .../lightgrep/ProgramHandle.java              | 23 ++++++++++++++++---
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index c0f7615..1b2f94a 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -646,21 +646,15 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_wri
   lg_write_program(ptr, buf);
 }
 
-JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_readImpl(JNIEnv* env, jclass, jbyteArray buffer, jint offset, jint size) {
+JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_readImpl(JNIEnv* env, jclass, jobject buffer, jint size) {
   try {
-    LG_HPROGRAM hProg = nullptr;
-
-    {
-      // convert all of the Java objects to C
-      std::unique_ptr<void,std::function<void(void*)>> data(unwrapCrit(env, buffer));
-
-      char* buf = static_cast<char*>(data.get()) + (uint32_t) offset;
+    // convert all of the Java objects to C
+    const void* buf = env->GetDirectBufferAddress(buffer);
 
-      // finally actually do something
-      hProg = lg_read_program(buf, (uint32_t) size);
-      if (!hProg) {
-        throwException(env, programExceptionClassName, "Bad program");
-      }
+    // finally actually do something
+    LG_HPROGRAM hProg = lg_read_program(buf, (uint32_t) size);
+    if (!hProg) {
+      throwException(env, programExceptionClassName, "Bad program");
     }
 
     return makeProgramHandle(env, hProg);
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
index 2f98b68..0f46730 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
@@ -11,6 +11,9 @@ public class ContextHandle extends Handle {
 
   static native void init();
 
+  // the memory to which the program refers, if it was read
+  ByteBuffer data;
+
   private ContextHandle(long ptr) {
     super(ptr);
   }
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
index 3898e58..038b466 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
@@ -1,5 +1,7 @@
 package com.lightboxtechnologies.lightgrep;
 
+import java.nio.ByteBuffer;
+
 import static com.lightboxtechnologies.lightgrep.Throws.*;
 
 public class ProgramHandle extends Handle {
@@ -7,6 +9,15 @@ public class ProgramHandle extends Handle {
     LibraryLoader.init();
   }
 
+  static native void init();
+
+  // A program which was read refers to the memory it was read from.
+  private ByteBuffer data;
+
+  private ProgramHandle(long ptr) {
+    super(ptr);
+  }
+
   /**
    * @throws IndexOutOfBoundsException
    */
@@ -75,10 +86,14 @@ public class ProgramHandle extends Handle {
     throwIfNegative("offset", offset);
     throwIfNegative("size", size);
     throwIfByteArrayTooSmall("buffer", buffer, "offset", offset, "size", size);
-    return readImpl(buffer, offset, size);
+    final ByteBuffer data = ByteBuffer.allocateDirect(size);
+    data.put(buffer, offset, size);
+    final ProgramHandle hProg = readImpl(data, size);
+    hProg.data = data;
+    return hProg;
   }
 
-  private static native ProgramHandle readImpl(byte[] buffer, int offset, int size);
+  private static native ProgramHandle readImpl(ByteBuffer buffer, int size);
 
   /**
    * @throws IllegalStateException
@@ -139,7 +154,9 @@ public class ProgramHandle extends Handle {
   public ContextHandle createContext(ContextOptions options) {
     throwIfNull("options", options);
     throwIfDestroyed(this);
-    return createContextImpl(options);
+    final ContextHandle hCtx = createContextImpl(options);
+    hCtx.data = data;
+    return hCtx;
   }
 
   private native ContextHandle createContextImpl(ContextOptions options);
-- 
2.43.0


From 82a540711de057185d5aba7f8ede3af26cad5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:30 +0000
Subject: [PATCH 30/35] fix: leave the position of a read-only buffer alone in
 Java

---
 .../com/lightboxtechnologies/lightgrep/ContextHandle.java     | 4 ++--
 .../main/java/com/lightboxtechnologies/lightgrep/LGUtil.java  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
index 0f46730..8b29a74 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
@@ -58,7 +58,7 @@ public class ContextHandle extends Handle {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       startsWithImpl(array, position, size, startOffset, callback);
@@ -114,7 +114,7 @@ public class ContextHandle extends Handle {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       return searchImpl(array, position, size, startOffset, callback);
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
index 81166ea..6c664e5 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
@@ -65,7 +65,7 @@ public class LGUtil {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       return getHitContextImpl(hDec, array, position, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
-- 
2.43.0


From 9aa199596aa6a6b43c7e4c91d0c151ca4b9025d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:54 +0000
Subject: [PATCH 31/35] fix: refuse to use a destroyed decoder in Java, and
 free its errors

---
 src/java/jni/jlightgrep.cpp                                     | 1 +
 .../main/java/com/lightboxtechnologies/lightgrep/LGUtil.java    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 1b2f94a..8881ab2 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -907,6 +907,7 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
   );
 
   if (err) {
+    std::unique_ptr<LG_Error,void(*)(LG_Error*)> perr(err, &lg_free_error);
     throwException(env, unsupportedEncodingExceptionClassName, err->Message);
   }
 
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
index 6c664e5..5c8b62d 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
@@ -29,6 +29,7 @@ public class LGUtil {
     throwIfNegative("replacement", replacement);
 // TODO: should we require that replacement != 0?
     throwIfGreaterThan("replacement", replacement, 0x10FFFF);
+    throwIfDestroyed(hDec);
 
     return getHitContextImpl(hDec, buffer, offset, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
   }
@@ -49,6 +50,7 @@ public class LGUtil {
     throwIfNegative("replacement", replacement);
 // TODO: should we require that replacement != 0?
     throwIfGreaterThan("replacement", replacement, 0x10FFFF);
+    throwIfDestroyed(hDec);
 
 // FIXME: this code is repeated in several places, factor it out.
     if (buffer.isDirect()) {
-- 
2.43.0


From 812a4c4535791f3ae5a2e7cb5a3305bf6573ca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:47 +0000
Subject: [PATCH 32/35] fix: do not overflow when a huge context is asked for

---
 src/lib/lightgrep_c_util.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index 66c4bdc..300e4d1 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -127,7 +127,7 @@ namespace {
     // Decode leading sequences of increasing length until we hit the
     // beginning of the buffer or decode more values than we need for
     // leading context.
-    for (const byte* l = hbeg-1; l >= bbeg && hbeg - l <= ssize_t(leading * dec.maxByteLength()); --l) {
+    for (const byte* l = hbeg-1; l >= bbeg && (hbeg - l - 1) / dec.maxByteLength() < leading; --l) {
       dec.reset(l, hbeg);
       lctx.clear();
       bad = 0;
@@ -176,7 +176,12 @@ namespace {
     //
     dh.begin = cps.size();
 
-    dec.reset(hbeg, std::min(hend + trailing*dec.maxByteLength(), bend));
+    // beware of overflow, trailing may be huge
+    dec.reset(
+      hbeg,
+      trailing <= (bend - hend) / dec.maxByteLength() ?
+        hend + trailing * dec.maxByteLength() : bend
+    );
 
     while ((cp = dec.next()).second < hend) {
       cps.push_back(cp);
-- 
2.43.0


From 73c2d8783c4d57bfa25eaf6013bc2bbd8fdfb316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:36 +0000
Subject: [PATCH 33/35] fix: let an FSM be compiled again, and be added to
 after it was compiled

---
 include/fsmthingy.h         |  2 +-
 src/lib/fsmthingy.cpp       | 19 +++++++++++++------
 src/lib/lightgrep_c_api.cpp |  4 ++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/fsmthingy.h b/include/fsmthingy.h
index 8cf92d1..c67a112 100644
--- a/include/fsmthingy.h
+++ b/include/fsmthingy.h
@@ -35,5 +35,5 @@ public:
 
   void addPattern(const ParseTree& tree, const char* chain, uint32_t label);
 
-  void finalizeGraph(uint32_t determinizeDepth);
+  NFAPtr finalizeGraph(uint32_t determinizeDepth);
 };
diff --git a/src/lib/fsmthingy.cpp b/src/lib/fsmthingy.cpp
index fc40f42..94a0152 100644
--- a/src/lib/fsmthingy.cpp
+++ b/src/lib/fsmthingy.cpp
@@ -45,17 +45,24 @@ void FSMThingy::addPattern(const ParseTree& tree, const char* chain, uint32_t la
   }
 }
 
-void FSMThingy::finalizeGraph(uint32_t determinizeDepth) {
+NFAPtr FSMThingy::finalizeGraph(uint32_t determinizeDepth) {
   if (Fsm->verticesSize() < 2) {
     throw std::runtime_error("No valid patterns were parsed");
   }
 
+  // work on another graph, as Fsm may be added to and finalized again
+  NFAPtr g;
+
   if (determinizeDepth && !Fsm->Deterministic) {
-    NFAPtr dfa(new NFA(1, 2 * Fsm->verticesSize(), Fsm->edgesSize()));
-    dfa->TransFac = Fsm->TransFac;
-    Comp.subsetDFA(*dfa, *Fsm, determinizeDepth);
-    Fsm = dfa;
+    g.reset(new NFA(1, 2 * Fsm->verticesSize(), Fsm->edgesSize()));
+    g->TransFac = Fsm->TransFac;
+    Comp.subsetDFA(*g, *Fsm, determinizeDepth);
+  }
+  else {
+    g.reset(new NFA(*Fsm));
   }
 
-  Comp.labelGuardStates(*Fsm);
+  Comp.labelGuardStates(*g);
+
+  return g;
 }
diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 07ea047..5156813 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -382,10 +382,10 @@ namespace {
       lg_destroy_program
     );
 
-    hFsm->Impl->finalizeGraph(opts->DeterminizeDepth);
+    const NFAPtr fsm = hFsm->Impl->finalizeGraph(opts->DeterminizeDepth);
 
     hProg->PMap = hFsm->PMap;
-    hProg->Prog = Compiler::createProgram(*hFsm->Impl->Fsm);
+    hProg->Prog = Compiler::createProgram(*fsm);
 
     return hProg.release();
   }
-- 
2.43.0


From 36ab83ad16ade21e317a8156f6c4072df1d470df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:39 +0000
Subject: [PATCH 34/35] fix: do not jump past the check of a state with several
 ways in

A jump table landed behind a state which only one edge leaves, and so
behind its CheckHalt: nothing kept the threads which meet there from
doubling, until memory ran out and hits were lost.
---
 src/lib/compiler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/compiler.cpp b/src/lib/compiler.cpp
index 379e192..b0272bd 100644
--- a/src/lib/compiler.cpp
+++ b/src/lib/compiler.cpp
@@ -25,10 +25,12 @@
 
 uint32_t figureOutLanding(const CodeGenHelper& cg, NFA::VertexDescriptor v, const NFA& graph) {
   // If the jump is to a state that has only a single out edge, and there's
-  // no label on the state, then jump forward directly to the out-edge state.
+  // no label or check on the state, then jump forward directly to the
+  // out-edge state.
   // i.e., this eliminates an indirect jump... it causes dead code.
   if (1 == graph.outDegree(v) &&
-      NOLABEL == graph[v].Label && !graph[v].IsMatch) {
+      NOLABEL == graph[v].Label && !graph[v].IsMatch &&
+      NONE == cg.Snippets[v].CheckIndex) {
     return cg.Snippets[graph.outVertex(v, 0)].Start;
   }
   else {
-- 
2.43.0


From 68ef81eb32a25f41516c00dfaa85d10d9ee7c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:39 +0000
Subject: [PATCH 35/35] fix: let no two threads of the same start go on from
 the same state

A thread which has not priority passes a check without taking its lock.
So several of the same start passed, which could match nothing that the
first of them would not, and their number doubled again and again: with
two keywords, thirty bytes of text could exhaust the memory.
---
 include/vm.h   |  4 ++++
 src/lib/vm.cpp | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/vm.h b/include/vm.h
index 26186ad..92da3c7 100644
--- a/include/vm.h
+++ b/include/vm.h
@@ -120,6 +120,10 @@ private:
 
   SparseSet CheckLabels;
 
+  // where the last thread to have passed a check without its lock started
+  SparseSet CheckBlocked;
+  std::vector<uint64_t> CheckStarts;
+
   bool LiveNoLabel;
   SparseSet Live;
 
diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 3fb11f9..7bf2394 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -124,6 +124,7 @@ Vm::Vm(ProgramPtr prog):
   ProgEnd(&(*prog)[prog->size() - 2]), // not end, but penultimate, guaranteed to be a halt; threads die just short of the finish
   First(), Active(1, &(*prog)[0]), Next(),
   CheckLabels(prog->MaxCheck+1),
+  CheckBlocked(prog->MaxCheck+1), CheckStarts(prog->MaxCheck+1),
   LiveNoLabel(false), Live(prog->MaxLabel+1),
   MatchEnds(prog->MaxLabel+1), MatchEndsMax(0),
   CurHitFn(nullptr), UserData(nullptr)
@@ -164,6 +165,7 @@ void Vm::reset() {
   Next.clear();
 
   CheckLabels.clear();
+  CheckBlocked.clear();
 
   LiveNoLabel = false;
   Live.clear();
@@ -346,6 +348,20 @@ inline bool Vm::_executeEpsilon(const Instruction* const base, ThreadList::itera
         // nothing blocks us, we take the lock
         CheckLabels.insert(instr.Op.Offset);
       }
+      else if (!CheckBlocked.find(instr.Op.Offset)) {
+        CheckBlocked.insert(instr.Op.Offset);
+        CheckStarts[instr.Op.Offset] = t->Start;
+      }
+      else if (CheckStarts[instr.Op.Offset] != t->Start) {
+        // threads with the same start are adjacent
+        CheckStarts[instr.Op.Offset] = t->Start;
+      }
+      else {
+        // a thread with priority and the same start is here already; what
+        // we could match, it will, so we die lest our number double
+        t->PC = 0;
+        return false;
+      }
 
       t->advance(InstructionSize<CHECK_HALT_OP>::VAL);
       return true;
@@ -493,6 +509,7 @@ inline void Vm::_cleanup() {
   Next.clear();
 
   CheckLabels.clear();
+  CheckBlocked.clear();
 
   LiveNoLabel = false;
   Live.clear();
-- 
2.43.0

