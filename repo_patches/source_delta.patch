From 0dc59a6e0371fd2db1c22c19e1e444e16c4f5750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:30 +0000
Subject: [PATCH 01/18] fix: test-point evaluation must look at the value of
 the polynomial

evaluate() computed the value of each polynomial at the test point and then
tested the builtin 'sum' instead of it, so every '<', '<=' and '=' condition
was reported as violated and every '!=' as met.
---
 vts/uni_vts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index f108d38..2173e40 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -777,10 +777,10 @@ def evaluate(point, le, lt, eq, ne):
       
   for (poly, strategy) in r_str:
     #print "  poly: %s" %poly
-    evaluate_poly(poly, point)
+    value = evaluate_poly(poly, point)
     #print "  term values: %s" %map(lambda (c, p): c*point**p, terms)
     #print "  sum: %s" %sum
-    if not strategy.condition(sum):
+    if not strategy.condition(value):
       raise ConditionExc(point, poly, strategy.msg)
       
 def evaluate_vts_root(root, eq, lt):
-- 
2.43.0


From 4d125cb4249aa6ab7d8518bff961e86a00167e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:39 +0000
Subject: [PATCH 02/18] fix: printing a Cohen-Hormander diagram must not
 compare polynomials

sortedset(diagram.keys()) orders the rows by comparing symbolic expressions,
which raises TypeError as soon as a suitable table has two rows.
---
 highschool_qe/cohenhorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 0664806..6ed2869 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -614,7 +614,7 @@ class CohenHormander:
       header.update(diagram[row].keys())
     #print map(lambda x: x, header)
     print "-" * max_len
-    for row in sortedset(diagram.keys()):
+    for row in sortedset(diagram.keys(), key = str):
       print str("%%%ds   " %max_len) %row,
   #     print "%s " %diagram[row],
   #     for index in diagram[row].keys():
-- 
2.43.0


From e79ec71c6f148bbc7e9a5290eb1ec0974837c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:53 +0000
Subject: [PATCH 03/18] fix: Cohen-Hormander must split on the leading
 coefficients of its inputs

real_full only split on the leading coefficients of the polynomials below the
one of maximum degree: a*x + b = 0 missed the case a = b = 0 and
a*x**2 + b*x + c = 0 raised 'no key in context'.  Inputs that vanish on a
branch leave only zero polynomials, which need a row as well.
---
 highschool_qe/cohenhorm.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 6ed2869..0928c28 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -25,7 +25,13 @@ class CohenHormander:
     polynomials that are: ( < 0, == 0, > 0)
     """
     polys = lesser + equalities + greater
-    contexted_tables = self._real_table(polys, {})
+    # the leading coefficients of the input polynomials have to be determined
+    # too (the polynomial of maximum degree is not covered by _real_table)
+    contexted_tables = []
+    for (con, pols, mpg) in self.expand_context({}, polys, {}):
+      for (table, table_con) in self._real_table(pols, con):
+        contexted_tables.append(
+            (self.table_map_back(table, polys, mpg), table_con))
     print
     
     # determine which whether diagrams satisify input conditions
@@ -81,7 +87,7 @@ class CohenHormander:
     # pick the next polynomial (which is of maximum degree)
     max_poly = set.pop(0)
     
-    sys.stdout.write("\rdeg of max_poly: %d" %(self._algebra.degree(max_poly)))
+    sys.stdout.write("\rdeg of max_poly: %s" %(self._algebra.degree(max_poly)))
     sys.stdout.flush()
     
     derivative = self._algebra.derivative(max_poly)
@@ -118,6 +124,9 @@ class CohenHormander:
         lambda p: self._algebra.degree(p) >= 0, 
         pols + rems
       )
+      # only zero polynomials are left, the table still needs a row
+      if len(new_goal) == 0:
+        new_goal = pols
       
       # get all tables (list of tables and contexts)
       needed_tables = self._real_table(new_goal, con)
-- 
2.43.0


From 0eb85df0350cbeb566dc3673443750fe154a10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:54 +0000
Subject: [PATCH 04/18] fix: GRF variables must not be injected into the
 parser's own namespace

sympy.var() binds the name in the calling module's globals, so a variable
called 'sympy' (or any other name the parser uses) broke every later parse.
---
 vts/grf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/grf_parser.py b/vts/grf_parser.py
index ed9cbc0..b776b42 100644
--- a/vts/grf_parser.py
+++ b/vts/grf_parser.py
@@ -15,7 +15,7 @@ def doInt(s,l,t):
 
     
 def doVariable(s, l, t):
-  return sympy.var(t[0])
+  return sympy.Symbol(t[0])
   #return sympy.var('x')
   
 def proc_le(s, l, t):
-- 
2.43.0


From aefd5308e356546fe1a941ae8d74642b0250076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:09 +0000
Subject: [PATCH 05/18] fix: a symbolic zero must convert to the empty
 coefficient list

convert() documents that 0 becomes [], but did so only for a plain int.
---
 vts/isym.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vts/isym.py b/vts/isym.py
index a23f4d4..948c576 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -19,6 +19,9 @@ def convert(poly):
       return []
     return [poly]
 
+  if poly.expand() == 0:
+    return []
+
   symbols = poly.free_symbols
   if len(symbols) == 0:
     return convert_rationals_to_ints([poly])
-- 
2.43.0


From 0193058dae8de524e57a8625a7552e9c6b5470b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 06/18] fix: an atom's variables must follow its polynomial

Groebner reduction can bring in variables the atom did not have; partial
evaluation then compared a non-constant polynomial with zero.
---
 GRF/grf.sage | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index cc067a9..4981be9 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -75,6 +75,7 @@ class RCF_Atom(RCF):
         print "      - Old poly: ", self.poly
         print "      - New poly: ", new_poly
         self.poly = new_poly
+        self.vars = new_poly.variables()
 
     def negate(self):
         if self.op == ">":
-- 
2.43.0


From b539b6a2fe2f89093cba6e6454948d44a1da598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 07/18] fix: two promoted equations must not be reduced by each
 other

The old hypotheses were reduced by the new equation and the new equation by
the old ones, so x = y followed by x = z left only y = z (and x = y twice
left nothing).
---
 GRF/grf.sage | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 4981be9..17af9db 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -196,8 +196,11 @@ class RCF_Goal(RCF):
         if not(use_gbs):
             self.goal_hyps = self.goal_hyps + [gh]
         else:
+            if self.gb != []:
+                # Simplify new gh using current goal_hyps
+                gh.quotient_ring_inject(self.gb)
             B = self.gb
-            if gh.op == '=':
+            if gh.op == '=' and gh.poly != 0:
                 I = ideal([gh.poly])
                 B = I.groebner_basis()
                 # Currently, B = I :-)!
@@ -205,9 +208,6 @@ class RCF_Goal(RCF):
                 for h in self.goal_hyps:
                     h.quotient_ring_inject(B)
                 B = ideal(self.gb + [gh.poly]).groebner_basis()
-            if self.gb != []:
-                # Simplify new gb using current goal_hyps
-                gh.quotient_ring_inject(self.gb)
             self.goal_hyps = self.goal_hyps + [gh]
             # Update our working self.gb in case gh has enriched it
             self.gb = B
-- 
2.43.0


From 5f45a26d8cc535a9a967884034575581e64f9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 08/18] fix: a bad point where no hypothesis holds has to be
 ruled out too

With only such points the candidate set came out empty and promoting its
first member raised IndexError.
---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 17af9db..a8e6b38 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -874,7 +874,7 @@ in a (uniform) epsilon(=" + str(epsilon) + ") neighborhood.")
                     #print "    " + str(bad)
                     if len(bad) == len(self.hyps):
                         raise Exception("Counterexample!: " + str(d))
-                    if bad not in bads and bad != []:
+                    if bad not in bads:
                         # Filter out sets in bads that are subsets of
                         # bad. This is a disgusting hack! Must change
                         # to tuple representation soon.
-- 
2.43.0


From 62901251e1508b3a95551c38125f213b59c814c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 09/18] fix: lifting without a goal must not evaluate the goal

---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index a8e6b38..e885029 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -633,7 +633,7 @@ class QE_Factory(RCF):
 
         # Special partiality for GRF: We short-circuit True cells!
 
-        if goal.eval_on_dict(parent_dict) == True:
+        if goal != None and goal.eval_on_dict(parent_dict) == True:
             print "--> Partiality for GRF short-circuited lifting over cell (R^" \
                 + str(l) + "):" + str(i) + "!"
             return []
-- 
2.43.0


From 6852cb692074bc967cf4422d648d4e5a8f21711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 10/18] fix: the sample point for an ambient x != 0 must
 satisfy it

---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index e885029..6f475b5 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -510,7 +510,7 @@ class QE_Factory(RCF):
                 if relevant_hyps != []:
                     #print "     >>> Making " + str(relevant_hyps[0]) + " True!"
                     h = relevant_hyps[0]
-                    if h.op == "<":
+                    if h.op in ["<", "!="]:
                         return [-1]
                     elif h.op == ">":
                         return [1]
-- 
2.43.0


From 34bad6b01f222e1de053c0e066909d5199bf7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 11/18] fix: root isolation must cover every real root of every
 polynomial

A polynomial with a rational root lost its irrational roots, and an exact
root of one polynomial could lie inside the interval of another's.  Isolate
the product of all of them, as the comment says, and shrink the intervals of
the rational roots to points.
---
 GRF/grf.sage | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 6f475b5..bd4e78a 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -442,19 +442,18 @@ class QE_Factory(RCF):
         if (univ_polys==[]):
             return []
         else:
-            easy_roots_global, rri = [], []
+            easy_roots = []
             prod = 1
             for p in univ_polys:
-                easy_roots = p.roots()
-                if easy_roots != []:
-                    easy_roots_global += [[(a, a), m] for (a, m) in easy_roots]
-                else:
-                    prod = prod * p
-            if prod != 1:
-                rri = prod.real_root_intervals()
-            #print "rri's: ", rri
-            #print "easy_roots:", easy_roots_global
-            return rri + easy_roots_global
+                easy_roots += [a for (a, m) in p.roots()]
+                prod = prod * p
+            out = []
+            for ((l, u), m) in prod.real_root_intervals():
+                exact = [a for a in easy_roots if l < a and a < u]
+                if exact != []:
+                    l, u = exact[0], exact[0]
+                out += [[(l, u), m]]
+            return out
 
     #
     # Given a rational interval (presented as (l, u), a lower and
-- 
2.43.0


From 1c6e099f4ca9387488df30333f69282b6bd20408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 12/18] fix: the variable order must follow the variables of
 the point

The order of the first problem was kept for every later one in the session.
---
 GRF/local_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index 8291f6d..e01e38b 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -44,7 +44,7 @@ class VarOrder:
     order = None
     @staticmethod
     def var_order(D):
-        if not VarOrder.order:
+        if not VarOrder.order or set(VarOrder.order) != set(D.keys()):
             VarOrder.order = D.keys()
         return VarOrder.order
     @staticmethod
-- 
2.43.0


From d57d2f3ce93dc9e9cd4432cd049af4c879ca5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 13/18] fix: hiding indices of the antecedent must address the
 given antecedent

Negated succedents were counted as further antecedents.
---
 GRF/smt2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index 836e970..ee3defe 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -133,6 +133,7 @@ class SMTContext:
         #    if h.op != "=":
         #        h.quotient_ring_inject(B)
 
+        original_antecedent = self.antecedent
         if len(self.succedent) > 1:
             self.succedent.reverse()
             for h in self.succedent[1:]:
@@ -168,7 +169,7 @@ class SMTContext:
         hide_succedent = []
 
         i = 0
-        for h in self.antecedent:
+        for h in original_antecedent:
             if h in hyps_to_hide:
                 hide_antecedent += [i]
             i += 1
-- 
2.43.0


From 9924a1d36b4dbcc630f0224037086ce23f66e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 14/18] fix: filtering must run on the context in use

The parse action stayed bound to the first context, so after clearContext, or
with a context given to processCommands, the first problem was filtered again.
---
 GRF/smt2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index ee3defe..1380cec 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -422,7 +422,7 @@ class ParseSMT():
                         setParseAction(proc_succedent)
 
         cmd = (lit_lpar + lit_sequent + str_sym + cmd_antecedent + cmd_succedent + lit_rpar).\
-              setParseAction(self.context.perform_grf)
+              setParseAction(lambda s, l, t: self.context.perform_grf(s, l, t))
         self.cmds = ZeroOrMore(cmd)
 
     def fmlsTokenList(self, s):
-- 
2.43.0


From 62c055db6294fdfe0a5595322c0266593fd47b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:36 +0000
Subject: [PATCH 15/18] fix: projection must not lose repeated and shared
 factors

A projection set with a polynomial that has a repeated factor, or two
polynomials with a common factor, gave identically zero discriminants and
resultants, which were then dropped as constants, and whole cells got no
sample point.  Project the irreducible factors instead.
---
 GRF/grf.sage | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index bd4e78a..3712098 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -332,12 +332,15 @@ class QE_Factory(RCF):
     # cheaply seen to be unnecessary for CAD tree construction.
     # This currently:
     #  - removes all rational constants,
+    #  - replaces every poly with its irreducible factors (a repeated
+    #     or shared factor would make discriminants and resultants
+    #     vanish identically, and thus be lost),
     #  - replaces all polys of the form (c_i x_i^d) with (x_i)
     #     (duplicates are cleared using set()).
     #
 
     def filter_proj_set(self, ps):
-        ps_1 = filter((lambda p: not(p.is_constant())), ps)
+        ps_1 = [f for p in ps if not(p.is_constant()) for (f, m) in p.factor()]
         ps_2 = list(set(map(self.pure_poly_base, ps_1)))
         # return ps_2
         # disabling ps_2 filtering for testing 13-Jun
@@ -374,10 +377,7 @@ class QE_Factory(RCF):
 
     #
     # The projection phase: Compute a full (filtered) Brown-McCallum
-    # hierarchy of projection sets, bound to self.proj_sets.  Note
-    # that we currently don't compute projection factor sets, only
-    # projection sets.  (This affects neither completeness nor
-    # soundness, only efficiency.)
+    # hierarchy of projection factor sets, bound to self.proj_sets.
     #
 
     def projection_phase(self):
-- 
2.43.0


From 92ec097b192863dbcfa261f9ef121855aa1cef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:55 +0000
Subject: [PATCH 16/18] fix: sampling around a point must cope with no hidden
 hypothesis

With every hypothesis promoted (or none given) the local search picked from
an empty list and failed with an IndexError instead of letting the caller
report the counterexample.
---
 GRF/local_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index e01e38b..db34a67 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -175,6 +175,8 @@ def local_search_sampling(Prob,D,sample_params):
             
             A = choose_atom_true(Prob,x)
             if A == None:
+                if Prob.get_hidden_hyp_atoms() == []:
+                    break # No hypothesis left to flip
                 A = choose_atom_random(Prob,x)
 
             # Sets up a function so that root solving it flips
-- 
2.43.0


From 3acb728dc533e2de99e66d91b550ebbb4cf88c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 17/18] fix: read the stored MetiTarski examples from the
 directory they are written to

---
 vts/examples_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index 807ed3c..46786d4 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -90,7 +90,7 @@ def make_univariate(relations):
 
 def unpickle_dirs_gen():
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
 
   dirGen = itertools.chain( os.walk(met_dir), os.walk(hid_dir))
@@ -127,7 +127,7 @@ def unpickle_dirs():
   
   """
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
   
   met_results = unpickle_from_dir(met_dir)
-- 
2.43.0


From 8a3d766dd71dc737e34f5d6dd4725fd51d2f9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 18/18] fix: key the checker's results by file number, so that
 its summary can be printed

---
 vts/checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/checker.py b/vts/checker.py
index 09fde35..fb9e980 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -57,12 +57,12 @@ def check_examples(vts=True):
       print "formula value: %s" %formula_value
       print
       if not formula_value:
-        results[file] = formula_value
+        results[file_index] = formula_value
 
 
   print results
   for f in results:
-    print "%s - %s" %(f[:-8], results[f])
+    print "%s - %s" %(f, results[f])
   
 def make_relation_map(formula):
   """Distributes relations in formula to map based on their type (<=, <, =, !=)
-- 
2.43.0

