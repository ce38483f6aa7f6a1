From 4fc800f8ec627b300ccd30d10d01cb317230e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 01/86] fix: loadcase: convert integer case data to float

Results are written back into the bus, gen and branch matrices in place, so a
case with integer matrices (case9, case9Q) had its solved outputs truncated.
---
 pypower/loadcase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 84ee92a..bcfd452 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -180,6 +180,10 @@ def loadcase(casefile,
 
             ## all fields present, copy to ppc
             ppc = deepcopy(s)
+            ## results are written back to these matrices, integer data
+            ## would truncate them
+            for key in ('bus', 'gen', 'branch'):
+                ppc[key] = array(ppc[key], dtype=float)
             if not hasattr(ppc, 'version'):  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
-- 
2.43.0


From c0b010bab3b7a95d618cc56771f7a32ac292fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 02/86] fix: power flow solvers: handle networks without PQ or
 without non-slack buses

The norm of an empty mismatch vector and the factorisation of an empty
B'' matrix raised exceptions instead of giving the (trivial) answer.
---
 pypower/fdpf.py     | 18 +++++++++---------
 pypower/gausspf.py  |  4 ++--
 pypower/newtonpf.py |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pypower/fdpf.py b/pypower/fdpf.py
index 64c1252..5f41086 100644
--- a/pypower/fdpf.py
+++ b/pypower/fdpf.py
@@ -60,8 +60,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
     Q = mis[pq].imag
 
     ## check tolerance
-    normP = linalg.norm(P, inf)
-    normQ = linalg.norm(Q, inf)
+    normP = linalg.norm(P, inf) if len(P) else 0.0
+    normQ = linalg.norm(Q, inf) if len(Q) else 0.0
     if verbose > 1:
         sys.stdout.write('\niteration     max mismatch (p.u.)  ')
         sys.stdout.write('\ntype   #        P            Q     ')
@@ -77,8 +77,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
     Bpp = Bpp[array([pq]).T, pq].tocsc()
 
     ## factor B matrices
-    Bp_solver = splu(Bp)
-    Bpp_solver = splu(Bpp)
+    Bp_solver = splu(Bp) if len(pvpq) else None
+    Bpp_solver = splu(Bpp) if len(pq) else None
 
     ## do P and Q iterations
     while (not converged and i < max_it):
@@ -98,8 +98,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
         Q = mis[pq].imag
 
         ## check tolerance
-        normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normP = linalg.norm(P, inf) if len(P) else 0.0
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write("\n  %s  %3d   %10.3e   %10.3e" %
                              (type,i, normP, normQ))
@@ -111,7 +111,7 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
             break
 
         ##-----  do Q iteration, update Vm  -----
-        dVm = -Bpp_solver.solve(Q)
+        dVm = -Bpp_solver.solve(Q) if len(pq) else Q
 
         ## update voltage
         Vm[pq] = Vm[pq] + dVm
@@ -123,8 +123,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
         Q = mis[pq].imag
 
         ## check tolerance
-        normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normP = linalg.norm(P, inf) if len(P) else 0.0
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write('\n  Q  %3d   %10.3e   %10.3e' % (i, normP, normQ))
         if normP < tol and normQ < tol:
diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index 2ca8b2b..cd97326 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -61,7 +61,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
              mis[pq].imag   ]
 
     ## check tolerance
-    normF = linalg.norm(F, inf)
+    normF = linalg.norm(F, inf) if len(F) else 0.0
     if verbose > 1:
         sys.stdout.write('\n it    max P & Q mismatch (p.u.)')
         sys.stdout.write('\n----  ---------------------------')
@@ -99,7 +99,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
                  mis[pq].imag  ]
 
         ## check for convergence
-        normF = linalg.norm(F, inf)
+        normF = linalg.norm(F, inf) if len(F) else 0.0
         if verbose > 1:
             sys.stdout.write('\n%3d        %10.3e' % (i, normF))
         if normF < tol:
diff --git a/pypower/newtonpf.py b/pypower/newtonpf.py
index 79ed7ce..393eb63 100644
--- a/pypower/newtonpf.py
+++ b/pypower/newtonpf.py
@@ -69,7 +69,7 @@ def newtonpf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
              mis[pq].imag  ]
 
     ## check tolerance
-    normF = linalg.norm(F, inf)
+    normF = linalg.norm(F, inf) if len(F) else 0.0
     if verbose > 1:
         sys.stdout.write('\n it    max P & Q mismatch (p.u.)')
         sys.stdout.write('\n----  ---------------------------')
@@ -117,7 +117,7 @@ def newtonpf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
                  mis[pq].imag  ]
 
         ## check for convergence
-        normF = linalg.norm(F, inf)
+        normF = linalg.norm(F, inf) if len(F) else 0.0
         if verbose > 1:
             sys.stdout.write('\n%3d        %10.3e' % (i, normF))
         if normF < tol:
-- 
2.43.0


From 7d1bc0566a14ca9fca0c452e9ab8022dede1fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 03/86] fix: fdpf: verbose iteration log printed the builtin
 'type'

---
 pypower/fdpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/fdpf.py b/pypower/fdpf.py
index 5f41086..978dd84 100644
--- a/pypower/fdpf.py
+++ b/pypower/fdpf.py
@@ -101,8 +101,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
         normP = linalg.norm(P, inf) if len(P) else 0.0
         normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
-            sys.stdout.write("\n  %s  %3d   %10.3e   %10.3e" %
-                             (type,i, normP, normQ))
+            sys.stdout.write("\n  P  %3d   %10.3e   %10.3e" %
+                             (i, normP, normQ))
         if normP < tol and normQ < tol:
             converged = 1
             if verbose:
-- 
2.43.0


From ed14dcfe9252b1a386f0ccd74603fbf200433a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 04/86] fix: gausspf: do not overwrite the caller's injection
 vector

---
 pypower/gausspf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index cd97326..8142d6a 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -47,6 +47,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
     converged = 0
     i = 0
     V = V0.copy()
+    Sbus = Sbus.copy()     ## updated below, do not modify the caller's vector
     #Va = angle(V)
     Vm = abs(V)
 
-- 
2.43.0


From d4d3930f17fb2fe9347c7a9794b84c537d71f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 05/86] fix: ext2int: order units at the same bus stably

argsort's default algorithm is not stable, so units sharing a bus could be
swapped and the slack power assigned to the wrong one of them.
---
 pypower/ext2int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/ext2int.py b/pypower/ext2int.py
index d3a8a85..5e71f1f 100644
--- a/pypower/ext2int.py
+++ b/pypower/ext2int.py
@@ -166,7 +166,7 @@ def ext2int(ppc, val_or_field=None, ordering=None, dim=0):
                         PRICE_REF_BUS].astype(int) ].copy()
 
             ## reorder gens in order of increasing bus number
-            o["gen"]["e2i"] = argsort(ppc["gen"][:, GEN_BUS])
+            o["gen"]["e2i"] = argsort(ppc["gen"][:, GEN_BUS], kind="stable")
             o["gen"]["i2e"] = argsort(o["gen"]["e2i"])
 
             ppc["gen"] = ppc["gen"][o["gen"]["e2i"].astype(int), :]
-- 
2.43.0


From 991288237d7d50cac317654c6c7f8a62cc77f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 06/86] fix: e2i_data: return the reordered matrix for sparse
 data with several orderings

The result of the stacking was discarded, so sparse user constraints and costs
were left in external order.
---
 pypower/e2i_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index c8de659..a359f9c 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -84,9 +84,9 @@ def e2i_data(ppc, val, ordering, dim=0):
 
         if issparse(new_v[0]):
             if dim == 0:
-                vstack(new_v, 'csr')
+                val = vstack(new_v, 'csr')
             elif dim == 1:
-                hstack(new_v, 'csr')
+                val = hstack(new_v, 'csr')
             else:
                 raise ValueError('dim (%d) may be 0 or 1' % dim)
         else:
-- 
2.43.0


From 1b5acb414b44a3a6df976fc0a610ea9c0ed6b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 07/86] fix: i2e_data: convert sparse data and avoid the
 deprecated int2ext call

With several orderings sparse data could not be concatenated, and each part
went through a deprecated wrapper that warned on every call.
---
 pypower/i2e_data.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 2620d54..c51e476 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -6,6 +6,8 @@ import sys
 
 from numpy import arange, concatenate
 
+from scipy.sparse import issparse, vstack, hstack
+
 from pypower.get_reorder import get_reorder
 from pypower.set_reorder import set_reorder
 
@@ -53,8 +55,6 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
 
     @see: L{e2i_data}, L{i2e_field}, L{int2ext}.
     """
-    from pypower.int2ext import int2ext
-
     if 'order' not in ppc:
         sys.stderr.write('i2e_data: ppc does not have the \'order\' field '
                 'required for conversion back to external numbering.\n')
@@ -81,13 +81,21 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
             ni = ppc[ordr].shape[0]
             v = get_reorder(val, bi + arange(ni), dim)
             oldv = get_reorder(oldval, be + arange(ne), dim)
-            new_v.append( int2ext(ppc, v, oldv, ordr, dim) )
+            new_v.append( i2e_data(ppc, v, oldv, ordr, dim) )
             be = be + ne
             bi = bi + ni
         ni = val.shape[dim]
         if ni > bi:              ## the rest
             v = get_reorder(val, arange(bi, ni), dim)
             new_v.append(v)
-        val = concatenate(new_v, dim)
+        if issparse(new_v[0]):
+            if dim == 0:
+                val = vstack(new_v, 'csr')
+            elif dim == 1:
+                val = hstack(new_v, 'csr')
+            else:
+                raise ValueError('dim (%d) may be 0 or 1' % dim)
+        else:
+            val = concatenate(new_v, dim)
 
     return val
-- 
2.43.0


From d2c03ada4b8da22a84a0abf49622ad4c176cb50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 08/86] fix: set_reorder: do not truncate the old values to the
 type of the new ones

---
 pypower/set_reorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/set_reorder.py b/pypower/set_reorder.py
index fb76e43..5942435 100644
--- a/pypower/set_reorder.py
+++ b/pypower/set_reorder.py
@@ -5,7 +5,7 @@
 """Assigns B to A with one of the dimensions of A indexed.
 """
 
-from numpy import ndim
+from numpy import ndim, result_type
 
 
 def set_reorder(A, B, idx, dim=0):
@@ -20,7 +20,7 @@ def set_reorder(A, B, idx, dim=0):
     """
     A = A.copy()
     ndims = ndim(A)
-    A = A.astype(B.dtype)
+    A = A.astype(result_type(A.dtype, B.dtype))
     if ndims ==  1:
         A[idx] = B
     elif ndims == 2:
-- 
2.43.0


From 3b55d1e81c81996d342524d3515fc5b6a7749573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 09/86] fix: e2i_field, i2e_field: walk down nested fields

Only missing levels were descended into, which left stray entries in the saved
data and failed for deeper nesting.
---
 pypower/e2i_field.py | 2 +-
 pypower/i2e_field.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_field.py b/pypower/e2i_field.py
index c458190..362e69a 100644
--- a/pypower/e2i_field.py
+++ b/pypower/e2i_field.py
@@ -55,7 +55,7 @@ def e2i_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_ext:
                 v_ext[fld] = {}
-                v_ext = v_ext[fld]
+            v_ext = v_ext[fld]
 
     exec('ppc["order"]["ext"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = e2i_data(ppc, ppc%s, ordering, dim)' % (key, key))
diff --git a/pypower/i2e_field.py b/pypower/i2e_field.py
index 67c46bd..345fa85 100644
--- a/pypower/i2e_field.py
+++ b/pypower/i2e_field.py
@@ -47,7 +47,7 @@ def i2e_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_int:
                 v_int[fld] = {}
-                v_int = v_int[fld]
+            v_int = v_int[fld]
 
     exec('ppc["order"]["int"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = i2e_data(ppc, ppc%s, ppc["order"]["ext"]%s, ordering, dim)' %
-- 
2.43.0


From 8597c57ea4a1c7a126e17849a15790cde9884725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 10/86] fix: int2ext: comparing the areas matrix with None
 raised an exception

---
 pypower/int2ext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/int2ext.py b/pypower/int2ext.py
index c06dd4d..630bee1 100644
--- a/pypower/int2ext.py
+++ b/pypower/int2ext.py
@@ -125,7 +125,7 @@ def int2ext(ppc, val_or_field=None, oldval=None, ordering=None, dim=0):
     return ppc
 
 
-def int2ext1(i2e, bus, gen, branch, areas):
+def int2ext1(i2e, bus, gen, branch, areas=None):
     """Converts from the consecutive internal bus numbers back to the originals
     using the mapping provided by the I2E vector returned from C{ext2int}.
 
@@ -137,7 +137,7 @@ def int2ext1(i2e, bus, gen, branch, areas):
     branch[:, F_BUS] = i2e[ branch[:, F_BUS].astype(int) ]
     branch[:, T_BUS] = i2e[ branch[:, T_BUS].astype(int) ]
 
-    if areas != None and len(areas) > 0:
+    if areas is not None and len(areas) > 0:
         areas[:, PRICE_REF_BUS] = i2e[ areas[:, PRICE_REF_BUS].astype(int) ]
         return bus, gen, branch, areas
 
-- 
2.43.0


From 152d938d7d50d614f010e64f50eb25bc6f3669aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 11/86] fix: runpf: repair enforcement of reactive power limits

The branch indexed with floats, combined comparisons with the wrong precedence,
compared index arrays as scalars, declared cases infeasible when only the number
of violating and remaining units agreed, and picked the wrong unit when fixing
one violation at a time.
---
 pypower/runpf.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 8ffcf4e..9b35068 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -11,7 +11,7 @@ from os.path import dirname, join
 
 from time import time
 
-from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d
+from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d, array_equal
 from numpy import flatnonzero as find
 
 from pypower.bustypes import bustypes
@@ -208,10 +208,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 if len(mx) > 0 or len(mn) > 0:  ## we have some Q limit violations
                     # first check for INFEASIBILITY (all remaining gens violating)
                     infeas = union1d(mx, mn)
-                    remaining = find( gen_status & 
-                                     (bus[gen[:, GEN_BUS], BUS_TYPE] == PV | 
-                                      bus[gen[:, GEN_BUS], BUS_TYPE] == REF))
-                    if len(infeas) == len(remaining) or all(infeas == remaining):
+                    genbus = gen[:, GEN_BUS].astype(int)
+                    remaining = find( gen_status &
+                                     ((bus[genbus, BUS_TYPE] == PV) |
+                                      (bus[genbus, BUS_TYPE] == REF)))
+                    if set(genbus[remaining]) <= set(genbus[infeas]):
                         if verbose:
                             print('All %d remaining gens exceed to their Q limits: INFEASIBLE PROBLEM\n' % len(infeas))
                         
@@ -222,12 +223,12 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     if qlim == 2:    ## fix largest violation, ignore the rest
                         k = argmax(r_[gen[mx, QG] - gen[mx, QMAX],
                                       gen[mn, QMIN] - gen[mn, QG]])
-                        if k > len(mx):
-                            mn = mn[k - len(mx)]
-                            mx = []
+                        if k >= len(mx):
+                            mn = mn[[k - len(mx)]]
+                            mx = mx[:0]
                         else:
-                            mx = mx[k]
-                            mn = []
+                            mx = mx[[k]]
+                            mn = mn[:0]
 
                     if verbose and len(mx) > 0:
                         for i in range(len(mx)):
@@ -249,7 +250,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                         bi = gen[mx[i], GEN_BUS].astype(int)   ## adjust load accordingly,
                         bus[bi, [PD, QD]] = (bus[bi, [PD, QD]] - gen[mx[i], [PG, QG]])
                     
-                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS], BUS_TYPE] == REF):
+                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS].astype(int), BUS_TYPE] == REF):
                         raise ValueError('Sorry, PYPOWER cannot enforce Q '
                                          'limits for slack buses in systems '
                                          'with multiple slacks.')
@@ -263,11 +264,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     # previous line can modify lists to select new REF bus
                     # if there was none, so we should update bus with these
                     # just to keep them consistent
-                    if ref != ref_temp:
+                    if not array_equal(ref, ref_temp):
                         bus[ref, BUS_TYPE] = REF
-                        bus[pv, BUS_TYPE] = pv
+                        bus[pv, BUS_TYPE] = PV
                         if verbose:
-                            print('Bus %d is new slack bus\n' % ref)
+                            print('Bus %d is new slack bus\n' % ref[0])
 
                     limited = r_[limited, mx].astype(int)
                 else:
@@ -279,11 +280,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             ## restore injections from limited gens [those at Q limits]
             gen[limited, QG] = fixedQg[limited]    ## restore Qg value,
             for i in range(len(limited)):               ## [one at a time, since they may be at same bus]
-                bi = gen[limited[i], GEN_BUS]           ## re-adjust load,
+                bi = gen[limited[i], GEN_BUS].astype(int)    ## re-adjust load,
                 bus[bi, [PD, QD]] = bus[bi, [PD, QD]] + gen[limited[i], [PG, QG]]
                 gen[limited[i], GEN_STATUS] = 1           ## and turn gen back on
             
-            if ref != ref0:
+            if not array_equal(ref, ref0):
                 ## adjust voltage angles to make original ref bus correct
                 bus[:, VA] = bus[:, VA] - bus[ref0, VA] + Varef0
 
-- 
2.43.0


From 773e1e37b1263d9eb7f92167cb75bf4e5f6b777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 12/86] fix: runpf: reject unknown algorithms instead of using
 an undefined solution

---
 pypower/runpf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 9b35068..fca129f 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -189,9 +189,9 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             elif alg == 4:
                 V, success, _ = gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt)
             else:
-                stderr.write('Only Newton''s method, fast-decoupled, and '
-                             'Gauss-Seidel power flow algorithms currently '
-                             'implemented.\n')
+                raise ValueError("Only Newton's method, fast-decoupled, and "
+                                 "Gauss-Seidel power flow algorithms currently "
+                                 "implemented.")
 
             ## update data matrices with solution
             bus, gen, branch = pfsoln(baseMVA, bus, gen, branch, Ybus, Yf, Yt, V, ref, pv, pq)
-- 
2.43.0


From 60c4db29bd097ff51322dc1920b54b9bd0a1c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 13/86] fix: opf cost functions: count the first unit's cost
 and reactive costs

---
 pypower/opf_costfcn.py | 8 ++++----
 pypower/opf_hessfcn.py | 2 +-
 pypower/polycost.py    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index ab58406..527db0f 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -58,7 +58,7 @@ def opf_costfcn(x, om, return_hessian=False):
     # formulation, pwl cost is the sum of the y variables.
     ipol = find(gencost[:, MODEL] == POLYNOMIAL)   ## poly MW and MVAr costs
     xx = r_[ Pg, Qg ] * baseMVA
-    if any(ipol):
+    if len(ipol) > 0:
         f = sum( totcost(gencost[ipol, :], xx[ipol]) )  ## cost of poly P or Q
     else:
         f = 0
@@ -142,7 +142,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ## ---- evaluate cost Hessian -----
     pcost = gencost[range(ng), :]
     if gencost.shape[0] > ng:
-        qcost = gencost[ng + 1:2 * ng, :]
+        qcost = gencost[ng:2 * ng, :]
     else:
         qcost = array([])
 
@@ -152,7 +152,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp]*baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:      ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if N is not None and issparse(N):
+    if issparse(N) and N.nnz > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index de842f5..7d15ba6 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -103,7 +103,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp] * baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:      ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
diff --git a/pypower/polycost.py b/pypower/polycost.py
index fd57359..bb2ee83 100644
--- a/pypower/polycost.py
+++ b/pypower/polycost.py
@@ -30,7 +30,7 @@ def polycost(gencost, Pg, der=0):
     """
     if gencost.size == 0:
         #User has a purely linear piecewise problem, exit early with empty array
-        return []
+        return zeros(0)
 
     if any(gencost[:, MODEL] == PW_LINEAR):
         sys.stderr.write('polycost: all costs must be polynomial\n')
-- 
2.43.0


From f55f726768af161a797dfa625c73f7b88f1ddc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:27 +0000
Subject: [PATCH 14/86] fix: makeAy: index reactive piecewise linear costs by
 the Qg columns

---
 pypower/makeAy.py    | 2 +-
 pypower/opf_setup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeAy.py b/pypower/makeAy.py
index cf71717..19ffa13 100644
--- a/pypower/makeAy.py
+++ b/pypower/makeAy.py
@@ -73,7 +73,7 @@ def makeAy(baseMVA, ng, gencost, pgbas, qgbas, ybas):
             print(f'makeAy: bad x axis data in row {i} of gencost matrix')
         b = m * p[:ns - 1] - c[:ns - 1]        ## and rhs
         by = r_[by,  b]
-        if i > ng:
+        if i >= ng:
             sidx = qgbas + (i - ng) - 1        ## this was for a q cost
         else:
             sidx = pgbas + i - 1               ## this was for a p cost
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index ca37b7b..07e945b 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -155,7 +155,7 @@ def opf_setup(ppc, ppopt):
         ## more problem dimensions
         nv    = nb           ## number of voltage magnitude vars
         nq    = ng           ## number of Qg vars
-        q1    = ng           ## index of 1st Qg column in Ay
+        q1    = 1 + ng       ## index of 1st Qg column in Ay
 
         ## dispatchable load, constant power factor constraints
         Avl, lvl, uvl, _  = makeAvl(baseMVA, gen)
-- 
2.43.0


From d01034d709015446354e82dbef94f3b2f5e796b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:39 +0000
Subject: [PATCH 15/86] fix: dcopf_solver: constant cost terms, refuse costs of
 higher order

---
 pypower/dcopf_solver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b3bc303..23d1b0c 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -5,7 +5,6 @@
 """Solves a DC optimal power flow.
 """
 
-from sys import stderr
 
 from copy import deepcopy
 
@@ -133,9 +132,10 @@ def dcopf_solver(om, ppopt, out_opt=None):
 
     ## quadratic costs
     npol = len(ipol)
-    if any(find(gencost[ipol, NCOST] > 3)):
-        stderr.write('DC opf cannot handle polynomial costs with higher '
-                     'than quadratic order.\n')
+    if any(gencost[ipol, NCOST] > 3):
+        raise ValueError('DC opf cannot handle polynomial costs with higher '
+                         'than quadratic order.')
+    icst = find(gencost[ipol, NCOST] == 1)
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
     polycf = zeros((npol, 3))         ## quadratic coeffs for Pg
@@ -143,6 +143,7 @@ def dcopf_solver(om, ppopt, out_opt=None):
         polycf[iqdr, :] = gencost[ipol[iqdr], COST:COST + 3]
     if npol:
         polycf[ilin, 1:3] = gencost[ipol[ilin], COST:COST + 2]
+        polycf[icst, 2] = gencost[ipol[icst], COST]
     polycf = dot(polycf, diag([ baseMVA**2, baseMVA, 1]))     ## convert to p.u.
     if npol:
         Npol = sparse((ones(npol), (arange(npol), vv["i1"]["Pg"] + ipol)),
@@ -179,7 +180,7 @@ def dcopf_solver(om, ppopt, out_opt=None):
     MN = M * NN
     HH = MN.T * HHw * MN
     CC = MN.T * (CCw - HMR)
-    C0 = 0.5 * dot(MR, HMR) + sum(polycf[:, 2])  # Constant term of cost.
+    C0 = 0.5 * dot(MR, HMR) - dot(CCw, MR) + sum(polycf[:, 2])  # Constant term of cost.
 
     ## set up input for QP solver
     opt = {'alg': alg, 'verbose': verbose}
-- 
2.43.0


From b9b6894f0cf966fd68cb0afe72280b023cb2c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:40 +0000
Subject: [PATCH 16/86] fix: opf_model: keep the parameters of named cost sets
 apart

---
 pypower/opf_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 861c455..cd826df 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -358,16 +358,16 @@ class opf_model(object):
             self.cost["data"]["H"][name]  = cp["H"]
 
         if 'dd' in cp:
-            self.cost["data"]["dd"]["name"] = cp["dd"]
+            self.cost["data"]["dd"][name] = cp["dd"]
 
         if 'rh' in cp:
-            self.cost["data"]["rh"]["name"] = cp["rh"]
+            self.cost["data"]["rh"][name] = cp["rh"]
 
         if 'kk' in cp:
-            self.cost["data"]["kk"]["name"] = cp["kk"]
+            self.cost["data"]["kk"][name] = cp["kk"]
 
         if 'mm' in cp:
-            self.cost["data"]["mm"]["name"] = cp["mm"]
+            self.cost["data"]["mm"][name] = cp["mm"]
 
         ## update number of vars and var sets
         self.cost["N"]  = self.cost["idx"]["iN"][name]
@@ -584,7 +584,7 @@ class opf_model(object):
         if not 'params' in self.cost:
             stderr.write('opf_model.get_cost_params: must call build_cost_params first\n')
 
-        cp = self.cost["params"]
+        cp = self.cost["params"].copy()
 
         if name is not None:
             if self.getN('cost', name):
-- 
2.43.0


From 2f7eef34def3bfaeadf8e08a5ca1cee055ce852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 17/86] fix: opf_model: default variable sets are those defined
 when the set is added

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index cd826df..4437db8 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -225,7 +225,7 @@ class opf_model(object):
                 u = inf * ones(N)
 
             if len(varsets) == 0:
-                varsets = self.var["order"]
+                varsets = list(self.var["order"])
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
@@ -309,7 +309,7 @@ class opf_model(object):
             varsets = []
 
         if len(varsets) == 0:
-            varsets = self.var["order"]
+            varsets = list(self.var["order"])
 
         nw, nx = cp["N"].shape
 
-- 
2.43.0


From 271aff22307bc32ae591abf869b6624d02fda9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 18/86] fix: opf_model: reject duplicate set names and
 mismatched sizes

---
 pypower/opf_model.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 4437db8..17fd252 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -195,7 +195,7 @@ class opf_model(object):
         if u is None:  ## nonlinear
             ## prevent duplicate named constraint sets
             if name in self.nln["idx"]["N"]:
-                stderr.write("opf_model.add_constraints: nonlinear constraint set named '%s' already exists\n" % name)
+                raise ValueError("opf_model.add_constraints: nonlinear constraint set named '%s' already exists" % name)
 
             ## add info about this nonlinear constraint set
             self.nln["idx"]["i1"][name] = self.nln["N"] #+ 1    ## starting index
@@ -212,7 +212,7 @@ class opf_model(object):
         else:                ## linear
             ## prevent duplicate named constraint sets
             if name in self.lin["idx"]["N"]:
-                stderr.write('opf_model.add_constraints: linear constraint set named ''%s'' already exists\n' % name)
+                raise ValueError('opf_model.add_constraints: linear constraint set named ''%s'' already exists' % name)
 
             if varsets is None:
                 varsets = []
@@ -229,14 +229,14 @@ class opf_model(object):
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
-                stderr.write('opf_model.add_constraints: sizes of A, l and u must match\n')
+                raise ValueError('opf_model.add_constraints: sizes of A, l and u must match')
 
             nv = 0
             for k in range(len(varsets)):
                 nv = nv + self.var["idx"]["N"][varsets[k]]
 
             if M != nv:
-                stderr.write('opf_model.add_constraints: number of columns of A does not match\nnumber of variables, A is %d x %d, nv = %d\n' % (N, M, nv))
+                raise ValueError('opf_model.add_constraints: number of columns of A does not match number of variables, A is %d x %d, nv = %d' % (N, M, nv))
 
             ## add info about this linear constraint set
             self.lin["idx"]["i1"][name]  = self.lin["N"] #+ 1   ## starting index
@@ -303,7 +303,7 @@ class opf_model(object):
         """
         ## prevent duplicate named cost sets
         if name in self.cost["idx"]["N"]:
-            stderr.write('opf_model.add_costs: cost set named \'%s\' already exists\n' % name)
+            raise ValueError('opf_model.add_costs: cost set named \'%s\' already exists' % name)
 
         if varsets is None:
             varsets = []
@@ -320,32 +320,32 @@ class opf_model(object):
 
         if nx != nv:
             if nw == 0:
-                cp["N"] = sparse(nw, nx)
+                cp["N"] = sparse((nw, nv))
             else:
-                stderr.write('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)\n' % (nw, nx, nv))
+                raise ValueError('opf_model.add_costs: number of columns in N (%d x %d) does not match number of variables (%d)' % (nw, nx, nv))
 
         if cp["Cw"].shape[0] != nw:
-            stderr.write('opf_model.add_costs: number of rows of Cw (%d x %d) and N (%d x %d) must match\n' % (cp["Cw"].shape[0], nw, nx))
+            raise ValueError('opf_model.add_costs: number of rows of Cw (%d) and N (%d x %d) must match' % (cp["Cw"].shape[0], nw, nx))
 
         if 'H' in cp:
             if (cp["H"].shape[0] != nw) | (cp["H"].shape[1] != nw):
-                stderr.write('opf_model.add_costs: both dimensions of H (%d x %d) must match the number of rows in N (%d x %d)\n' % (cp["H"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: both dimensions of H (%d x %d) must match the number of rows in N (%d x %d)' % (cp["H"].shape + (nw, nx)))
 
         if 'dd' in cp:
             if cp["dd"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of dd (%d x %d) and N (%d x %d) must match\n' % (cp["dd"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of dd (%d) and N (%d x %d) must match' % (cp["dd"].shape[0], nw, nx))
 
         if 'rh' in cp:
             if cp["rh"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of rh (%d x %d) and N (%d x %d) must match\n' % (cp["rh"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of rh (%d) and N (%d x %d) must match' % (cp["rh"].shape[0], nw, nx))
 
         if 'kk' in cp:
             if cp["kk"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of kk (%d x %d) and N (%d x %d) must match\n' % (cp["kk"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of kk (%d) and N (%d x %d) must match' % (cp["kk"].shape[0], nw, nx))
 
         if 'mm' in cp:
             if cp["mm"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of mm (%d x %d) and N (%d x %d) must match\n' % (cp["mm"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of mm (%d) and N (%d x %d) must match' % (cp["mm"].shape[0], nw, nx))
 
         ## add info about this user cost set
         self.cost["idx"]["i1"][name]  = self.cost["N"] #+ 1     ## starting index
@@ -389,7 +389,7 @@ class opf_model(object):
         """
         ## prevent duplicate named var sets
         if name in self.var["idx"]["N"]:
-            stderr.write('opf_model.add_vars: variable set named ''%s'' already exists\n' % name)
+            raise ValueError('opf_model.add_vars: variable set named ''%s'' already exists' % name)
 
         if v0 is None or len(v0) == 0:
             v0 = zeros(N)           ## init to zero by default
@@ -540,6 +540,8 @@ class opf_model(object):
         N, Cw, H, dd, rh, kk, mm = \
             cp["N"], cp["Cw"], cp["H"], cp["dd"], cp["rh"], cp["kk"], cp["mm"]
         nw = N.shape[0]
+        if nw == 0:                    ## no costs
+            return 0.0
         r = N * x - rh                 ## Nx - rhat
         iLT = find(r < -kk)            ## below dead zone
         iEQ = find((r == 0) & (kk == 0))   ## dead zone doesn't exist
-- 
2.43.0


From 35fa9251ed01e8615c12965fe6c2113235e62f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 19/86] fix: opf_execute: reject unknown algorithms, leave the
 caller's options alone

---
 pypower/opf_execute.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 8196512..edf88c4 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -5,7 +5,7 @@
 """Executes the OPF specified by an OPF model object.
 """
 
-from sys import stdout, stderr
+from sys import stdout
 
 from numpy import array, arange, pi, zeros, r_
 
@@ -65,17 +65,15 @@ def opf_execute(om, ppopt):
             alg = 560                ## MIPS
 
         ## update deprecated algorithm codes to new, generalized formulation equivalents
-        if alg == 100 | alg == 200:        ## CONSTR
+        if alg == 100 or alg == 200:        ## CONSTR
             alg = 300
-        elif alg == 120 | alg == 220:      ## dense LP
+        elif alg == 120 or alg == 220:      ## dense LP
             alg = 320
-        elif alg == 140 | alg == 240:      ## sparse (relaxed) LP
+        elif alg == 140 or alg == 240:      ## sparse (relaxed) LP
             alg = 340
-        elif alg == 160 | alg == 260:      ## sparse (full) LP
+        elif alg == 160 or alg == 260:      ## sparse (full) LP
             alg = 360
 
-        ppopt['OPF_ALG_POLY'] = alg
-
         ## run specific AC OPF solver
         if alg == 560 or alg == 565:                   ## PIPS
             results, success, raw = pipsopf_solver(om, ppopt)
@@ -88,7 +86,7 @@ def opf_execute(om, ppopt):
                                   '(see https://projects.coin-or.org/Ipopt/)' %
                                   alg)
         else:
-            stderr.write('opf_execute: OPF_ALG %d is not a valid algorithm code\n' % alg)
+            raise ValueError('opf_execute: OPF_ALG %d is not a valid algorithm code' % alg)
 
     if ('output' not in raw) or ('alg' not in raw['output']):
         raw['output']['alg'] = alg
-- 
2.43.0


From bfddc7e8311d73a7f60ee8203e7999327f508b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 20/86] fix: opf_args2: do not modify the caller's case, keep
 all fields of case files

---
 pypower/opf_args.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index fa4788a..b771fb3 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -334,7 +334,12 @@ def opf_args2(*args):
     baseMVA, bus, gen, branch, gencost, Au, lbu, ubu, \
         ppopt, N, fparm, H, Cw, z0, zl, zu, userfcn, areas = opf_args(*args)
 
-    ppc = args[0] if isinstance(args[0], dict) else {}
+    if isinstance(args[0], dict):
+        ppc = args[0].copy()            ## leave the caller's case alone
+    elif isinstance(args[0], basestring):
+        ppc = loadcase(args[0])         ## keep the other fields of the case
+    else:
+        ppc = {}
 
     ppc['baseMVA'] = baseMVA
     ppc['bus'] = bus
-- 
2.43.0


From 9ef1a92a0ac424caeef73b7bd9b919a615ed40ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 21/86] fix: opf_setup: user costs without H or involving Vm or
 Qg in DC OPF

---
 pypower/opf_args.py  |  4 ++--
 pypower/opf_setup.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index b771fb3..33c9475 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -305,7 +305,7 @@ def opf_args(*args):
         if len(fparm) > 0 and fparm.shape[0] != nw:
             stderr.write('opf_args.m: dimension mismatch between N and fparm '
                          'in generalized cost parameters\n')
-        if (H is not None) and (H.shape[0] != nw | H.shape[0] != nw):
+        if (H is not None) and (H.shape[0] != nw or H.shape[1] != nw):
             stderr.write('opf_args.m: dimension mismatch between N and H in '
                          'generalized cost parameters\n')
         if Au is not None:
@@ -316,7 +316,7 @@ def opf_args(*args):
         if not issparse(N):
             stderr.write('opf_args.m: N must be sparse in generalized cost '
                          'parameters\n')
-        if not issparse(H):
+        if H is not None and not issparse(H):
             stderr.write('opf_args.m: H must be sparse in generalized cost parameters\n')
 
     if Au is not None and not issparse(Au):
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 07e945b..7dd4b11 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -81,9 +81,9 @@ def opf_setup(ppc, ppopt):
                 ## make sure there aren't any costs on Vm or Qg
                 if ppc['N'][:, acc].nnz > 0:
                     ii, _ = nonzero(ppc['N'][:, acc])
-                    _, ii = unique(ii, return_index=True)    ## indices of w with potential non-zero cost terms from Vm or Qg
-                    if any(ppc['Cw'][ii]) | ( ('H' in ppc) & (len(ppc['H']) > 0) &
-                            any(any(ppc['H'][:, ii])) ):
+                    ii = unique(ii)    ## indices of w with potential non-zero cost terms from Vm or Qg
+                    if any(ppc['Cw'][ii]) or (ppc.get('H') is not None and
+                            ppc['H'].tocsc()[:, ii].nnz > 0):
                         stderr.write('opf_setup: attempting to solve DC OPF with user costs on Vm or Qg\n')
 
                 # FIXME: delete sparse matrix columns
@@ -254,8 +254,8 @@ def opf_setup(ppc, ppopt):
             user_cost['kk'] = fparm[:, 2]
             user_cost['mm'] = fparm[:, 3]
 
-#        if len(H) > 0:
-        user_cost['H'] = H
+        if H is not None:
+            user_cost['H'] = H
 
         om.add_costs('usr', user_cost, user_vars)
 
-- 
2.43.0


From 4d0c7dde19d8f1d87d6fdc85ebfc4a0cbc1f75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 22/86] fix: pips: do not modify the caller's options, repair
 step control without equalities

---
 pypower/pips.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index a94c5c8..e7fee20 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -197,7 +197,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
     else:
         nonlinear = True
 
-    if opt is None: opt = {}
+    opt = {} if opt is None else opt.copy()
     # options
     if "feastol" not in opt:
         opt["feastol"] = 1e-06
@@ -428,7 +428,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
                 # 1st der of eqs
                 if (dgn1 is None) and (Ae is None):
                     dg1 = None
-                elif dgn is None:
+                elif dgn1 is None:
                     dg1 = Ae.T
                 elif Ae is None:
                     dg1 = dgn1
-- 
2.43.0


From 185a1189111fca45d3d24e31e7675971d8eca006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 23/86] fix: qps_pypower, qps_pips: dict arguments, bounds-only
 LPs, unknown algorithms

---
 pypower/qps_pips.py    | 35 +++++++++++++++--------------------
 pypower/qps_pypower.py | 10 ++++------
 2 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 4c90520..428e914 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -14,7 +14,7 @@ from scipy.sparse import csr_matrix as sparse
 from pypower.pips import pips
 
 
-def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
+def qps_pips(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None, x0=None, opt=None):
     """Uses the Python Interior Point Solver (PIPS) to solve the following
     QP (quadratic programming) problem::
 
@@ -126,7 +126,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     if isinstance(H, dict):
-        p = H
+        p = H.copy()
     else:
         p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u}
         if xmin is not None: p['xmin'] = xmin
@@ -134,31 +134,26 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
         if x0 is not None: p['x0'] = x0
         if opt is not None: p['opt'] = opt
 
-    if 'H' not in p or p['H'] == None:#p['H'].nnz == 0:
-        if p['A'] is None or p['A'].nnz == 0 and \
-           'xmin' not in p and \
-           'xmax' not in p:
-#           'xmin' not in p or len(p['xmin']) == 0 and \
-#           'xmax' not in p or len(p['xmax']) == 0:
-            print('qps_pips: LP problem must include constraints or variable bounds')
-            return
+    A, xmin, xmax = p.get('A'), p.get('xmin'), p.get('xmax')
+    if p.get('H') is None:
+        if A is not None and A.shape[1] > 0:
+            nx = A.shape[1]
+        elif xmin is not None and len(xmin) > 0:
+            nx = len(xmin)
+        elif xmax is not None and len(xmax) > 0:
+            nx = len(xmax)
         else:
-            if p['A'] is not None and p['A'].nnz >= 0:
-                nx = p['A'].shape[1]
-            elif 'xmin' in p and len(p['xmin']) > 0:
-                nx = p['xmin'].shape[0]
-            elif 'xmax' in p and len(p['xmax']) > 0:
-                nx = p['xmax'].shape[0]
+            raise ValueError('qps_pips: LP problem must include constraints or variable bounds')
         p['H'] = sparse((nx, nx))
     else:
         nx = p['H'].shape[0]
 
-    p['xmin'] = -inf * ones(nx) if 'xmin' not in p else p['xmin']
-    p['xmax'] =  inf * ones(nx) if 'xmax' not in p else p['xmax']
+    if xmin is None: p['xmin'] = -inf * ones(nx)
+    if xmax is None: p['xmax'] =  inf * ones(nx)
 
-    p['c'] = zeros(nx) if p['c'] is None else p['c']
+    if p.get('c') is None: p['c'] = zeros(nx)
 
-    p['x0'] = zeros(nx) if 'x0' not in p else p['x0']
+    if p.get('x0') is None: p['x0'] = zeros(nx)
 
     def qp_f(x, return_hessian=False):
         f = 0.5 * dot(x * p['H'], x) + dot(p['c'], x)
diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 8ece5e7..e93a923 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -5,8 +5,6 @@
 """Quadratic Program Solver for PYPOWER.
 """
 
-import sys
-
 from pypower.qps_pips import qps_pips
 from pypower.qps_ipopt import qps_ipopt
 from pypower.qps_cplex import qps_cplex
@@ -127,7 +125,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
         if 'l' in p: l = p['l']
         if 'A' in p: A = p['A']
         if 'c' in p: c = p['c']
-        if 'H' in p: H = p['H']
+        H = p.get('H')
     else:                         ## individual args
 #        assert H is not None  zero dimensional sparse matrices not supported
         assert c is not None
@@ -168,7 +166,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     if alg == 200 or alg == 250:    ## use MIPS or sc-MIPS
         ## set up options
         if 'pips_opt' in opt:
-            pips_opt = opt['pips_opt']
+            pips_opt = opt['pips_opt'].copy()
         else:
             pips_opt = {}
 
@@ -194,11 +192,11 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     elif alg == 600:                    ## use MOSEK
         x, f, eflag, output, lmbda = \
             qps_mosek(H, c, A, l, u, xmin, xmax, x0, opt)
-    elif 700:                           ## use Gurobi
+    elif alg == 700:                           ## use Gurobi
         x, f, eflag, output, lmbda = \
             qps_gurobi(H, c, A, l, u, xmin, xmax, x0, opt)
     else:
-        sys.stderr.write('qps_pypower: %d is not a valid algorithm code\n', alg)
+        raise ValueError('qps_pypower: %d is not a valid algorithm code' % alg)
 
     if 'alg' not in output:
         output['alg'] = alg
-- 
2.43.0


From 03aa1828b5654c08cd7ac646e81dc5e6ad5e460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 24/86] fix: loadcase: report every failure through its codes,
 run case files in their own namespace

---
 pypower/loadcase.py | 91 ++++++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 58 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index bcfd452..a7e1f66 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -58,6 +58,7 @@ def loadcase(casefile,
         expect_areas = False
 
     info = 0
+    lasterr = ''
 
     # read data into case object
     if isinstance(casefile, basestring):
@@ -76,8 +77,6 @@ def loadcase(casefile,
                 info = 2
             fname = basename(rootname)
 
-        lasterr = ''
-
         ## attempt to read file
         if info == 0:
             if extension == '.mat':       ## from MAT file
@@ -100,64 +99,35 @@ def loadcase(casefile,
                         for k, v in d.items():
                             s[k] = v
 
-                    s['baseMVA'] = s['baseMVA'][0]  # convert array to float
+                    s['baseMVA'] = float(array(s['baseMVA']).flat[0])  # convert array to float
 
                 except IOError as e:
                     info = 3
                     lasterr = str(e)
+                except Exception as e:    ## not a MAT file or baseMVA missing
+                    info = 5
+                    lasterr = str(e)
             elif extension == '.py':      ## from Python file
+                ## names available to case files that import nothing
+                ns = {'array': array, 'zeros': zeros, 'ones': ones, 'c_': c_}
                 try:
-                    if PY2:
-                        execfile(rootname + extension)
-                    else:
-                        exec(compile(open(rootname + extension).read(),
-                                     rootname + extension, 'exec'))
-
-                    try:                      ## assume it returns an object
-                        s = eval(fname)()
-                    except ValueError as e:
-                        info = 4
-                        lasterr = str(e)
-                    ## if not try individual data matrices
-                    if info == 0 and not isinstance(s, dict):
-                        s = {}
+                    with open(rootname + extension) as fd:
+                        exec(compile(fd.read(), rootname + extension, 'exec'), ns)
+
+                    s = ns[fname]()
+                    if not isinstance(s, dict):   ## individual data matrices
+                        s = tuple(s)
+                        if len(s) not in (4, 6):
+                            raise ValueError('%s returns %d values' % (fname, len(s)))
+                        s = dict(zip(('baseMVA', 'bus', 'gen', 'branch',
+                                      'areas', 'gencost'), s))
                         s['version'] = '1'
-                        if expect_gencost:
-                            try:
-                                s['baseMVA'], s['bus'], s['gen'], s['branch'], \
-                                s['areas'], s['gencost'] = eval(fname)()
-                            except IOError as e:
-                                info = 4
-                                lasterr = str(e)
-                        else:
-                            if return_as_obj:
-                                try:
-                                    s['baseMVA'], s['bus'], s['gen'], \
-                                        s['branch'], s['areas'], \
-                                        s['gencost'] = eval(fname)()
-                                except ValueError as e:
-                                    try:
-                                        s['baseMVA'], s['bus'], s['gen'], \
-                                            s['branch'] = eval(fname)()
-                                    except ValueError as e:
-                                        info = 4
-                                        lasterr = str(e)
-                            else:
-                                try:
-                                    s['baseMVA'], s['bus'], s['gen'], \
-                                        s['branch'] = eval(fname)()
-                                except ValueError as e:
-                                    info = 4
-                                    lasterr = str(e)
-
                 except IOError as e:
-                    info = 4
+                    info = 5 if exists(rootname + extension) else 4
                     lasterr = str(e)
-
-
-                if info == 4 and exists(rootname + '.py'):
+                except Exception as e:
                     info = 5
-                    err5 = lasterr
+                    lasterr = str(e)
 
     elif isinstance(casefile, dict):
         s = deepcopy(casefile)
@@ -167,23 +137,28 @@ def loadcase(casefile,
     # check contents of dict
     if info == 0:
         # check for required keys
-        if (s['baseMVA'] is None or s['bus'] is None \
-            or s['gen'] is None or s['branch'] is None) or \
-            (expect_gencost and s['gencost'] is None) or \
-            (expect_areas and s['areas'] is None):
+        required = ['baseMVA', 'bus', 'gen', 'branch']
+        if expect_gencost:
+            required.append('gencost')
+        if expect_areas:
+            required.append('areas')
+        missing = [key for key in required if s.get(key) is None]
+        if missing:
             info = 5  ## missing some expected fields
-            err5 = 'missing data'
+            lasterr = 'missing data: ' + ', '.join(missing)
         else:
             ## remove empty areas if not needed
-            if hasattr(s, 'areas') and (len(s['areas']) == 0) and (not expect_areas):
+            if not expect_areas and 'areas' in s and \
+                    (s['areas'] is None or len(s['areas']) == 0):
                 del s['areas']
 
             ## all fields present, copy to ppc
             ppc = deepcopy(s)
             ## results are written back to these matrices, integer data
             ## would truncate them
-            for key in ('bus', 'gen', 'branch'):
-                ppc[key] = array(ppc[key], dtype=float)
+            for key in ('bus', 'gen', 'branch', 'gencost'):
+                if ppc.get(key) is not None:
+                    ppc[key] = array(ppc[key], dtype=float)
             if not hasattr(ppc, 'version'):  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
-- 
2.43.0


From ed1314d70210ec91eac7b6fc7f0d14198288f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 25/86] fix: ppc_1to2: keep result columns of version 1 data in
 their places

---
 pypower/loadcase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index a7e1f66..2bc2b62 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -216,8 +216,8 @@ def ppc_1to2(gen, branch):
 
     ## add extra columns to gen
     tmp = zeros((gen.shape[0], shift))
-    if gen.shape[1] >= mu_Qmin:
-        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin] ]
+    if gen.shape[1] > mu_Qmin:
+        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin + 1] ]
     else:
         gen = c_[ gen[:, 0:PMIN + 1], tmp ]
 
@@ -230,10 +230,10 @@ def ppc_1to2(gen, branch):
     ## add extra columns to branch
     tmp = ones((branch.shape[0], 1)) * array([-360, 360])
     tmp2 = zeros((branch.shape[0], 2))
-    if branch.shape[1] >= mu_St - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:MU_ST + 1], tmp2 ]
-    elif branch.shape[1] >= QT - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:QT + 1] ]
+    if branch.shape[1] > mu_St:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:mu_St + 1], tmp2 ]
+    elif branch.shape[1] > Qt:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:Qt + 1] ]
     else:
         branch = c_[ branch[:, 0:BR_STATUS + 1], tmp ]
 
-- 
2.43.0


From 3cd79c5085dd2814b78efa4f20e26c66c317df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 26/86] fix: loadcase: respect the version of the case, tidy up
 data of MAT-files

---
 pypower/loadcase.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 2bc2b62..c02f4cd 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -93,12 +93,19 @@ def loadcase(casefile,
                         for a in val.dtype.names:
                             s[a] = val[a]
                     else:                 ## individual data matrices
-                        d['version'] = '1'
+                        d.setdefault('version', '1')
 
                         s = {}
                         for k, v in d.items():
-                            s[k] = v
-
+                            if not k.startswith('__'):   ## file header
+                                s[k] = v
+
+                    ## undo conversion of scalars and vectors to 2-D arrays
+                    if 'version' in s:
+                        s['version'] = str(array(s['version']).flat[0])
+                    for k in ('l', 'u', 'Cw', 'z0', 'zl', 'zu'):
+                        if k in s:
+                            s[k] = array(s[k]).flatten()
                     s['baseMVA'] = float(array(s['baseMVA']).flat[0])  # convert array to float
 
                 except IOError as e:
@@ -159,7 +166,7 @@ def loadcase(casefile,
             for key in ('bus', 'gen', 'branch', 'gencost'):
                 if ppc.get(key) is not None:
                     ppc[key] = array(ppc[key], dtype=float)
-            if not hasattr(ppc, 'version'):  ## hmm, struct with no 'version' field
+            if 'version' not in ppc:  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
                 else:
@@ -169,6 +176,14 @@ def loadcase(casefile,
                 # convert from version 1 to version 2
                 ppc['gen'], ppc['branch'] = ppc_1to2(ppc['gen'], ppc['branch']);
                 ppc['version'] = '2'
+            else:
+                # add optional columns, if only those of version 1 are given
+                gen, branch = ppc['gen'], ppc['branch']
+                if gen.shape[1] == PMIN + 1:
+                    ppc['gen'] = c_[gen, zeros((gen.shape[0], APF - PMIN))]
+                if branch.shape[1] == BR_STATUS + 1:
+                    ppc['branch'] = c_[branch, ones((branch.shape[0], 1)) *
+                                       array([-360, 360])]
 
     if info == 0:  # no errors
         if return_as_obj:
-- 
2.43.0


From e71652e2375f9acfa4f2551217ed1f4316845f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 27/86] fix: savecase: user data, wide cost rows, infinite
 values, MAT-files that load again

---
 pypower/savecase.py | 157 +++++++++++++++++++-------------------------
 1 file changed, 67 insertions(+), 90 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index f370557..c501bb1 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -11,6 +11,7 @@ from os.path import basename
 
 from numpy import array, c_, r_, any
 from scipy.io import savemat
+from scipy.sparse import coo_matrix
 
 from pypower._compat import PY2
 from pypower.run_userfcn import run_userfcn
@@ -45,7 +46,7 @@ def savecase(fname, ppc, comment=None, version='2'):
     Autonoma de Manizales)
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    ppc_ver = ppc["version"] = version
+    ppc_ver = version
     baseMVA, bus, gen, branch = \
         ppc["baseMVA"], ppc["bus"], ppc["gen"], ppc["branch"]
     areas = ppc["areas"] if "areas" in ppc else None
@@ -109,38 +110,24 @@ def savecase(fname, ppc, comment=None, version='2'):
             ppc_mat['areas'] = array(ppc['areas'])
         if 'gencost' in ppc:
             ppc_mat['gencost'] = array(ppc['gencost'])
-        if "A" in ppc and len(ppc["A"]) > 0:
-            ppc_mat["A"] = array(ppc["A"])
-            if "l" in ppc and len(ppc["l"]) > 0:
-                ppc_mat["l"] = array(ppc["l"])
-            if "u" in ppc and len(ppc["u"]) > 0:
-                ppc_mat["u"] = array(ppc["u"])
-        if "N" in ppc and len(ppc["N"]) > 0:
-            ppc_mat["N"] = array(ppc["N"])
-            if "H" in ppc and len(ppc["H"]) > 0:
-                ppc_mat["H"] = array(ppc["H"])
-            if "fparm" in ppc and len(ppc["fparm"]) > 0:
-                ppc_mat["fparm"] = array(ppc["fparm"])
-            ppc_mat["Cw"] = array(ppc["Cw"])
-        if 'z0' in ppc or 'zl' in ppc or 'zu' in ppc:
-            if 'z0' in ppc and len(ppc['z0']) > 0:
-                ppc_mat['z0'] = array(ppc['z0'])
-            if 'zl' in ppc and len(ppc['zl']) > 0:
-                ppc_mat['zl'] = array(ppc['zl'])
-            if 'zu' in ppc and len(ppc['zu']) > 0:
-                ppc_mat['zu'] = array(ppc['zu'])
-        if 'userfcn' in ppc and len(ppc['userfcn']) > 0:
-            ppc_mat['userfcn'] = array(ppc['userfcn'])
-        elif 'userfcn' in ppc:
-            ppc_mat['userfcn'] = ppc['userfcn']
+        for key in ['A', 'N', 'H']:
+            if key in ppc and num_rows(ppc[key]) > 0:
+                ppc_mat[key] = coo_matrix(ppc[key]).tocsc()
+        for key in ['l', 'u', 'fparm', 'Cw', 'z0', 'zl', 'zu']:
+            if key in ppc and num_rows(ppc[key]) > 0:
+                ppc_mat[key] = array(ppc[key])
         for key in ['x', 'f']:
             if key in ppc:
                 ppc_mat[key] = ppc[key]
-        for key in ['lin', 'order', 'nln', 'var', 'raw', 'mu']:
+        for key in ['lin', 'nln', 'var', 'raw', 'mu']:
             if key in ppc:
                 ppc_mat[key] = array(ppc[key])
 
-        savemat(fname, ppc_mat)
+        try:
+            savemat(fname, ppc_mat)
+        except IOError as detail:
+            stderr.write("savecase: %s.\n" % detail)
+            return fname
     else:                       ## Python file
         try:
             fd = open(fname, writemode)
@@ -157,7 +144,10 @@ def savecase(fname, ppc, comment=None, version='2'):
 #                fd.write('function [baseMVA, bus, gen, branch] = %s\n' % rootname)
 #            prefix = ''
         else:
-            fd.write('def %s():\n' % basename(rootname))
+            fd.write('from numpy import array, inf, nan\n')
+            if num_rows(ppc.get('A')) > 0 or num_rows(ppc.get('N')) > 0:
+                fd.write('from scipy.sparse import csr_matrix as sparse\n')
+            fd.write('\ndef %s():\n' % basename(rootname))
             prefix = 'ppc'
         if comment:
             if isinstance(comment, basestring):
@@ -177,7 +167,7 @@ def savecase(fname, ppc, comment=None, version='2'):
         fd.write('\n%s## bus data\n' % indent)
         fd.write('%s# bus_i type Pd Qd Gs Bs area Vm Va baseKV zone Vmax Vmin' % indent)
         if ncols >= MU_VMIN + 1:             ## opf SOLVED, save with lambda's & mu's
-            fd.write('lam_P lam_Q mu_Vmax mu_Vmin')
+            fd.write(' lam_P lam_Q mu_Vmax mu_Vmin')
         fd.write("\n%s%s['bus'] = array([\n" % (indent, prefix))
         if ncols < MU_VMIN + 1:              ## opf NOT SOLVED, save without lambda's & mu's
             for i in range(bus.shape[0]):
@@ -266,7 +256,7 @@ def savecase(fname, ppc, comment=None, version='2'):
             fd.write('%s# 1 startup shutdown n x1 y1 ... xn yn\n' % indent)
             fd.write('%s# 2 startup shutdown n c(n-1) ... c0\n' % indent)
             fd.write('%s%s[\'gencost\'] = array([\n' % (indent, prefix))
-            if len(gencost > 0):
+            if len(gencost) > 0:
                 if any(gencost[:, MODEL] == PW_LINEAR):
                     n1 = 2 * max(gencost[gencost[:, MODEL] == PW_LINEAR,  NCOST])
                 else:
@@ -278,78 +268,46 @@ def savecase(fname, ppc, comment=None, version='2'):
                 n = int( max([n1, n2]) )
                 if gencost.shape[1] < n + 4:
                     stderr.write('savecase: gencost data claims it has more columns than it does\n')
+                    n = gencost.shape[1] - 4
                 template = '%s[%d, %.9g, %.9g, %d'
                 for i in range(n):
                     template = template + ', %.9g'
                 template = template + '],\n'
                 for i in range(gencost.shape[0]):
-                    fd.write(template % ((indent2,) + tuple(gencost[i])))
+                    fd.write(template % ((indent2,) + tuple(gencost[i, :n + 4])))
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-        if ("A" in ppc) and (len(ppc["A"]) > 0) or ("N" in ppc) and (len(ppc["N"]) > 0):
+        A, N = ppc.get('A'), ppc.get('N')
+        if num_rows(A) > 0 or num_rows(N) > 0:
             fd.write('\n%s##-----  Generalized OPF User Data  -----##' % indent)
 
         ## user constraints
-        if ("A" in ppc) and (len(ppc["A"]) > 0):
+        if num_rows(A) > 0:
             ## A
             fd.write('\n%s## user constraints\n' % indent)
-            print_sparse(fd, prefix + "['A']", ppc["A"])
-            if ("l" in ppc) and (len(ppc["l"]) > 0) and ("u" in ppc) and (len(ppc["u"]) > 0):
-                fd.write('%slu = array([\n' % indent)
-                for i in range(len(ppc["l"])):
-                    fd.write('%s[%.9g, %.9g],\n' % (indent2, ppc["l"][i], ppc["u"][i]))
-                fd.write('%s])\n' % indent)
-                fd.write("%s%s['l'] = lu[:, 0]\n" % (indent, prefix))
-                fd.write("%s%s['u'] = lu[:, 1]\n\n" % (indent, prefix))
-            elif ("l" in ppc) and (len(ppc["l"]) > 0):
-                fd.write("%s%s['l'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["l"][i]))
-                fd.write('%s])\n\n' % indent)
-            elif ("u" in ppc) and (len(ppc["u"]) > 0):
-                fd.write("%s%s['u'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["u"][i]))
-                fd.write('%s])\n\n' % indent)
+            print_sparse(fd, prefix + "['A']", A, indent)
+            for key in ['l', 'u']:
+                print_vector(fd, prefix, key, ppc, indent)
 
         ## user costs
-        if ("N" in ppc) and (len(ppc["N"]) > 0):
+        if num_rows(N) > 0:
             fd.write('\n%s## user costs\n' % indent)
-            print_sparse(fd, prefix + "['N']", ppc["N"])
-            if ("H" in ppc) and (len(ppc["H"]) > 0):
-                print_sparse(fd, prefix + "['H']", ppc["H"])
-            if ("fparm" in ppc) and (len(ppc["fparm"]) > 0):
-                fd.write("%sCw_fparm = array([\n" % indent)
-                for i in range(ppc["Cw"]):
-                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2,) + tuple(ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
-                fd.write('%s])\n' % indent)
-                fd.write('%s%s[\'Cw\']    = Cw_fparm[:, 0]\n' % (indent, prefix))
-                fd.write("%s%s['fparm'] = Cw_fparm[:, 1:5]\n" % (indent, prefix))
-            else:
-                fd.write("%s%s['Cw'] = array([\n" % (indent, prefix))
-                for i in range(len(ppc["Cw"])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["Cw"][i]))
+            print_sparse(fd, prefix + "['N']", N, indent)
+            if num_rows(ppc.get('H')) > 0:
+                print_sparse(fd, prefix + "['H']", ppc['H'], indent)
+            print_vector(fd, prefix, 'Cw', ppc, indent)
+            if num_rows(ppc.get('fparm')) > 0:
+                fd.write("%s%s['fparm'] = array([\n" % (indent, prefix))
+                for row in array(ppc['fparm']):
+                    fd.write('%s[%d, %.9g, %.9g, %.9g],\n' % ((indent2,) + tuple(row)))
                 fd.write('%s])\n' % indent)
 
         ## user vars
         if ('z0' in ppc) or ('zl' in ppc) or ('zu' in ppc):
             fd.write('\n%s## user vars\n' % indent)
-            if ('z0' in ppc) and (len(ppc['z0']) > 0):
-                fd.write('%s%s["z0"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['z0'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["z0"]))
-                fd.write('%s])\n' % indent)
-            if ('zl' in ppc) and (len(ppc['zl']) > 0):
-                fd.write('%s%s["zl"] = array([\n' % (indent2, prefix))
-                for i in range(len(ppc['zl'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zl"]))
-                fd.write('%s])\n' % indent)
-            if ('zu' in ppc) and (len(ppc['zu']) > 0):
-                fd.write('%s%s["zu"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['zu'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zu"]))
-                fd.write('%s])\n' % indent)
+            for key in ['z0', 'zl', 'zu']:
+                print_vector(fd, prefix, key, ppc, indent)
 
         ## execute userfcn callbacks for 'savecase' stage
         if 'userfcn' in ppc:
@@ -363,17 +321,36 @@ def savecase(fname, ppc, comment=None, version='2'):
     return fname
 
 
-def print_sparse(fd, varname, A):
-    A = A.tocoo()
+def num_rows(a):
+    """Number of rows of a matrix (dense or sparse) or vector, 0 for C{None}.
+    """
+    if a is None:
+        return 0
+    return a.shape[0] if hasattr(a, 'shape') else len(a)
+
+
+def print_vector(fd, prefix, key, ppc, indent):
+    """Prints C{ppc[key]}, if present, as a 1-D array.
+    """
+    if num_rows(ppc.get(key)) > 0:
+        fd.write("%s%s['%s'] = array([\n" % (indent, prefix, key))
+        for v in array(ppc[key]).flatten():
+            fd.write('%s%.9g,\n' % (indent * 2, v))
+        fd.write('%s])\n' % indent)
+
+
+def print_sparse(fd, varname, A, indent='    '):
+    A = coo_matrix(A)
     i, j, s = A.row, A.col, A.data
     m, n = A.shape
 
     if len(s) == 0:
-        fd.write('%s = sparse((%d, %d))\n' % (varname, m, n))
-    else:
-        fd.write('ijs = array([\n')
-    for k in range(len(i)):
-        fd.write('[%d, %d, %.9g],\n' % (i[k], j[k], s[k]))
+        fd.write('%s%s = sparse((%d, %d))\n' % (indent, varname, m, n))
+        return
 
-    fd.write('])\n')
-    fd.write('%s = sparse(ijs[:, 0], ijs[:, 1], ijs[:, 2], %d, %d)\n' % (varname, m, n))
+    fd.write('%sijs = array([\n' % indent)
+    for k in range(len(i)):
+        fd.write('%s[%d, %d, %.9g],\n' % (indent * 2, i[k], j[k], s[k]))
+    fd.write('%s])\n' % indent)
+    fd.write('%s%s = sparse((ijs[:, 2], (ijs[:, 0].astype(int), '
+             'ijs[:, 1].astype(int))), (%d, %d))\n' % (indent, varname, m, n))
-- 
2.43.0


From 199c1059b8733e70c045f1224ea516bb5f2c284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:09 +0000
Subject: [PATCH 28/86] fix: AC OPF without branch limits: zero-sized flow
 constraints

---
 pypower/d2AIbr_dV2.py  |  7 ++++---
 pypower/d2ASbr_dV2.py  |  7 ++++---
 pypower/d2Sbr_dV2.py   |  2 +-
 pypower/dAbr_dV.py     | 11 ++++++-----
 pypower/dSbr_dV.py     |  8 ++++----
 pypower/opf_consfcn.py |  2 +-
 6 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/pypower/d2AIbr_dV2.py b/pypower/d2AIbr_dV2.py
index 816d999..b8ebf79 100644
--- a/pypower/d2AIbr_dV2.py
+++ b/pypower/d2AIbr_dV2.py
@@ -33,10 +33,11 @@ def d2AIbr_dV2(dIbr_dVa, dIbr_dVm, Ibr, Ybr, V, lam):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     # define
-    il = range(len(lam))
+    nl = len(lam)
+    il = range(nl)
 
-    diaglam = sparse((lam, (il, il)))
-    diagIbr_conj = sparse((Ibr.conj(), (il, il)))
+    diaglam = sparse((lam, (il, il)), (nl, nl))
+    diagIbr_conj = sparse((Ibr.conj(), (il, il)), (nl, nl))
 
     Iaa, Iav, Iva, Ivv = d2Ibr_dV2(Ybr, V, diagIbr_conj * lam)
 
diff --git a/pypower/d2ASbr_dV2.py b/pypower/d2ASbr_dV2.py
index 8a404d6..81292bf 100644
--- a/pypower/d2ASbr_dV2.py
+++ b/pypower/d2ASbr_dV2.py
@@ -33,10 +33,11 @@ def d2ASbr_dV2(dSbr_dVa, dSbr_dVm, Sbr, Cbr, Ybr, V, lam):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    il = range(len(lam))
+    nl = len(lam)
+    il = range(nl)
 
-    diaglam = csr_matrix((lam, (il, il)))
-    diagSbr_conj = csr_matrix((Sbr.conj(), (il, il)))
+    diaglam = csr_matrix((lam, (il, il)), (nl, nl))
+    diagSbr_conj = csr_matrix((Sbr.conj(), (il, il)), (nl, nl))
 
     Saa, Sav, Sva, Svv = d2Sbr_dV2(Cbr, Ybr, V, diagSbr_conj * lam)
 
diff --git a/pypower/d2Sbr_dV2.py b/pypower/d2Sbr_dV2.py
index 1c7f046..db7756f 100644
--- a/pypower/d2Sbr_dV2.py
+++ b/pypower/d2Sbr_dV2.py
@@ -33,7 +33,7 @@ def d2Sbr_dV2(Cbr, Ybr, V, lam):
     ib = range(nb)
     il = range(nl)
 
-    diaglam = csr_matrix((lam, (il, il)))
+    diaglam = csr_matrix((lam, (il, il)), (nl, nl))
     diagV = csr_matrix((V, (ib, ib)))
 
     A = Ybr.getH() * diaglam * Cbr
diff --git a/pypower/dAbr_dV.py b/pypower/dAbr_dV.py
index e5715f8..8d846f7 100644
--- a/pypower/dAbr_dV.py
+++ b/pypower/dAbr_dV.py
@@ -55,12 +55,13 @@ def dAbr_dV(dSf_dVa, dSf_dVm, dSt_dVa, dSt_dVm, Sf, St):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    il = range(len(Sf))
+    nl = len(Sf)
+    il = range(nl)
 
-    dAf_dPf = csr_matrix((2 * Sf.real, (il, il)))
-    dAf_dQf = csr_matrix((2 * Sf.imag, (il, il)))
-    dAt_dPt = csr_matrix((2 * St.real, (il, il)))
-    dAt_dQt = csr_matrix((2 * St.imag, (il, il)))
+    dAf_dPf = csr_matrix((2 * Sf.real, (il, il)), (nl, nl))
+    dAf_dQf = csr_matrix((2 * Sf.imag, (il, il)), (nl, nl))
+    dAt_dPt = csr_matrix((2 * St.real, (il, il)), (nl, nl))
+    dAt_dQt = csr_matrix((2 * St.imag, (il, il)), (nl, nl))
 
     # Partial derivative of apparent power magnitude w.r.t voltage
     # phase angle.
diff --git a/pypower/dSbr_dV.py b/pypower/dSbr_dV.py
index 2eb19e5..b61bc17 100644
--- a/pypower/dSbr_dV.py
+++ b/pypower/dSbr_dV.py
@@ -76,10 +76,10 @@ def dSbr_dV(branch, Yf, Yt, V):
         If = Yf * V
         It = Yt * V
 
-        diagVf = sparse((V[f], (il, il)))
-        diagIf = sparse((If, (il, il)))
-        diagVt = sparse((V[t], (il, il)))
-        diagIt = sparse((It, (il, il)))
+        diagVf = sparse((V[f], (il, il)), (nl, nl))
+        diagIf = sparse((If, (il, il)), (nl, nl))
+        diagVt = sparse((V[t], (il, il)), (nl, nl))
+        diagIt = sparse((It, (il, il)), (nl, nl))
         diagV  = sparse((V, (ib, ib)))
         diagVnorm = sparse((Vnorm, (ib, ib)))
 
diff --git a/pypower/opf_consfcn.py b/pypower/opf_consfcn.py
index a146462..8aa20bd 100644
--- a/pypower/opf_consfcn.py
+++ b/pypower/opf_consfcn.py
@@ -120,7 +120,7 @@ def opf_consfcn(x, om, Ybus, Yf, Yt, ppopt, il=None, *args):
                 h = r_[ Sf * conj(Sf) - flow_max, ## branch S limits (from bus)
                         St * conj(St) - flow_max ].real  ## branch S limits (to bus)
     else:
-        h = zeros((0,1))
+        h = zeros(0)
 
     ##----- evaluate partials of constraints -----
     ## index ranges
-- 
2.43.0


From 8acda6015e68782dd4b884898110adf324c4bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:11 +0000
Subject: [PATCH 29/86] fix: makePTDF accepts the documented column vector of
 slack weights

---
 pypower/makePTDF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/makePTDF.py b/pypower/makePTDF.py
index 6d0cf45..b99e5e7 100644
--- a/pypower/makePTDF.py
+++ b/pypower/makePTDF.py
@@ -62,7 +62,8 @@ def makePTDF(baseMVA, bus, branch, slack=None):
 
     ## distribute slack, if requested
     if not isscalar(slack):
-        if len(slack.shape) == 1:  ## slack is a vector of weights
+        if len(slack.shape) == 1 or slack.shape[1] == 1:  ## slack is a vector of weights
+            slack = slack.flatten()
             slack = slack / sum(slack)   ## normalize weights
 
             ## conceptually, we want to do ...
-- 
2.43.0


From c845a23d682abe3066d5769e0f77f9c0a07dfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:45 +0000
Subject: [PATCH 30/86] fix: totcost evaluates a matrix of generation levels as
 documented

---
 pypower/totcost.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypower/totcost.py b/pypower/totcost.py
index 90a0954..9ad834f 100644
--- a/pypower/totcost.py
+++ b/pypower/totcost.py
@@ -5,7 +5,7 @@
 """Computes total cost for generators at given output level.
 """
 
-from numpy import zeros, arange
+from numpy import array, zeros, arange, ndim
 from numpy import flatnonzero as find
 
 from pypower.polycost import polycost
@@ -24,6 +24,9 @@ def totcost(gencost, Pg):
     @author: Carlos E. Murillo-Sanchez (PSERC Cornell & Universidad
     Autonoma de Manizales)
     """
+    if ndim(Pg) > 1:        ## several generation levels for each row
+        return array([totcost(gencost, Pgk) for Pgk in Pg.T]).T.reshape(Pg.shape)
+
     ng, m = gencost.shape
     totalcost = zeros(ng)
 
-- 
2.43.0


From 101407c6432a0ffae83c9bce41c7c936b444a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:57 +0000
Subject: [PATCH 31/86] fix: pqcost accepts a list of generator indices as
 documented

---
 pypower/pqcost.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/pqcost.py b/pypower/pqcost.py
index 7902080..f4b1dc3 100644
--- a/pypower/pqcost.py
+++ b/pypower/pqcost.py
@@ -24,6 +24,8 @@ def pqcost(gencost, ng, on=None):
     """
     if on is None:
         on = arange(ng)
+    else:
+        on = array(on, int)
 
     if gencost.shape[0] == ng:
         pcost = gencost[on, :]
-- 
2.43.0


From 0bc9dc0c5b60d4060fda8ff6193b0db3df95fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 32/86] fix: poly2pwl builds the interpolation points and keeps
 its input

---
 pypower/poly2pwl.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/pypower/poly2pwl.py b/pypower/poly2pwl.py
index d7b0b2d..fa3f3c3 100644
--- a/pypower/poly2pwl.py
+++ b/pypower/poly2pwl.py
@@ -5,7 +5,7 @@
 """Converts polynomial cost variable to piecewise linear.
 """
 
-from numpy import ones, zeros, r_
+from numpy import ones, zeros, linspace, r_
 
 from pypower.idx_cost import MODEL, COST, NCOST, PW_LINEAR
 
@@ -21,28 +21,24 @@ def poly2pwl(polycost, Pmin, Pmax, npts):
     C{P} really means C{Q}) it just uses C{npts} evenly spaced points between
     C{Pmin} and C{Pmax}.
     """
-    pwlcost = polycost
     ## size of piece being changed
     m, n = polycost.shape
+    pwlcost = zeros((m, max(n, COST + 2 * npts)))
+    pwlcost[:, :n] = polycost
     ## change cost model
     pwlcost[:, MODEL]  = PW_LINEAR * ones(m)
     ## zero out old data
-    pwlcost[:, COST:COST + n] = zeros(pwlcost[:, COST:COST + n].shape)
+    pwlcost[:, COST:] = 0
     ## change number of data points
     pwlcost[:, NCOST]  = npts * ones(m)
 
     for i in range(m):
-        if Pmin[i] == 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        elif Pmin[i] > 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 2)
-            xx = r_[0, range(Pmin[i], step, Pmax[i])]
-        elif Pmin[i] < 0 & Pmax[i] > 0:        ## for when P really means Q
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        yy = totcost(polycost[i, :], xx)
-        pwlcost[i,      COST:2:(COST + 2*(npts-1)    )] = xx
-        pwlcost[i,  (COST+1):2:(COST + 2*(npts-1) + 1)] = yy
+        if Pmin[i] > 0:
+            xx = r_[0, linspace(Pmin[i], Pmax[i], npts - 1)]
+        else:           ## Pmin <= 0, e.g. for when P really means Q
+            xx = linspace(Pmin[i], Pmax[i], npts)
+        yy = totcost(polycost[[i], :], xx[None, :])[0]
+        pwlcost[i,      COST:(COST + 2*npts    ):2] = xx
+        pwlcost[i,  (COST+1):(COST + 2*npts + 1):2] = yy
 
     return pwlcost
-- 
2.43.0


From 582aebd37f9cd80bf6ad4a42c923480a8ec5ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 33/86] fix: pips reports numerical failure when the Newton
 step is meaningless

---
 pypower/pips.py       | 2 +-
 pypower/pplinsolve.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index e7fee20..7d775d9 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -389,7 +389,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
 
         dxdlam = pplinsolve(Ab.tocsr(), bb)
 
-        if any(isnan(dxdlam)):
+        if any(isnan(dxdlam)) or norm(dxdlam) > 1.0 / EPS:
             if opt["verbose"]:
                 print('\nNumerically Failed\n')
             eflag = -1
diff --git a/pypower/pplinsolve.py b/pypower/pplinsolve.py
index 968a8c9..b507450 100644
--- a/pypower/pplinsolve.py
+++ b/pypower/pplinsolve.py
@@ -1,4 +1,4 @@
-from numpy import asfortranarray
+from numpy import asfortranarray, full, nan
 from scipy.sparse import csc_matrix, csr_matrix
 from scipy.sparse.linalg import spsolve
 
@@ -24,6 +24,9 @@ def pplinsolve(A, b, lin_solver=None):
         import pyrlu
         pyrlu.factor_solve(n, A.indices, A.indptr, A.data, x, trans=trans, par=False)
     else:
-        x = spsolve(A, b)
+        try:
+            x = spsolve(A, b)
+        except RuntimeError:    ## matrix is singular
+            x = full(b.shape, nan)
 
     return x
-- 
2.43.0


From 04076e2b4b6de655e4d43d87741f7d1d68661942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 34/86] fix: qps_pypower max_it of 0 means the solver's default

---
 pypower/qps_pypower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index e93a923..4678d9b 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -170,7 +170,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
         else:
             pips_opt = {}
 
-        if 'max_it' in opt:
+        if opt.get('max_it'):       ## 0 = use algorithm default
             pips_opt['max_it'] = opt['max_it']
 
         if alg == 200:
-- 
2.43.0


From 5216dc92b68d1c721e86ac7b77788cee16a43a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 35/86] fix: opf_model.add_vars rejects initial values or
 bounds of the wrong size

---
 pypower/opf_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 17fd252..b930317 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -400,6 +400,9 @@ class opf_model(object):
         if vu is None or len(vu) == 0:
             vu = inf * ones(N)      ## unbounded above by default
 
+        ## check sizes
+        if len(v0) != N or len(vl) != N or len(vu) != N:
+            raise ValueError('opf_model.add_vars: sizes of v0, vl and vu must match the number of variables (%d)' % N)
 
         ## add info about this var set
         self.var["idx"]["i1"][name]  = self.var["N"] #+ 1   ## starting index
-- 
2.43.0


From 017edafe4db4fb458a2abb0df5895bf0501ed75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:07 +0000
Subject: [PATCH 36/86] fix: opf_model costs of an empty named set, add_costs
 leaves its argument alone

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index b930317..ab14dcf 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -320,7 +320,7 @@ class opf_model(object):
 
         if nx != nv:
             if nw == 0:
-                cp["N"] = sparse((nw, nv))
+                cp = dict(cp, N=sparse((nw, nv)))   ## leave caller's dict alone
             else:
                 raise ValueError('opf_model.add_costs: number of columns in N (%d x %d) does not match number of variables (%d)' % (nw, nx, nv))
 
@@ -592,7 +592,7 @@ class opf_model(object):
         cp = self.cost["params"].copy()
 
         if name is not None:
-            if self.getN('cost', name):
+            if name in self.cost["idx"]["N"]:
                 idx = arange(self.cost["idx"]["i1"][name], self.cost["idx"]["iN"][name])
                 nwa = self.cost["idx"]["i1"][name]
                 nwb = self.cost["idx"]["iN"][name]
-- 
2.43.0


From d9bc98e0dac85e8ab8733e5fd1a1283a1e133b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:03 +0000
Subject: [PATCH 37/86] fix: makeApq data of an absent capability limit is an
 empty two-column matrix

---
 pypower/makeApq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeApq.py b/pypower/makeApq.py
index eb90a78..d91e8ff 100644
--- a/pypower/makeApq.py
+++ b/pypower/makeApq.py
@@ -67,7 +67,7 @@ def makeApq(baseMVA, gen):
                       (npqh, 2*ng))
         ubpqh = ubpqh / baseMVA
     else:
-        data["h"] = array([])
+        data["h"] = zeros((0, 2))
         Apqh  = zeros((0, 2*ng))
         ubpqh = array([])
 
@@ -86,7 +86,7 @@ def makeApq(baseMVA, gen):
                       (npql, 2*ng))
         ubpql = ubpql / baseMVA
     else:
-        data["l"] = array([])
+        data["l"] = zeros((0, 2))
         Apql  = zeros((0, 2*ng))
         ubpql = array([])
 
-- 
2.43.0


From 18543bb7c897de1685dbe4b02815a3b606b9baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 38/86] fix: add_userfcn rejects invalid stages and duplicates,
 accepts any argument

---
 pypower/add_userfcn.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index 0c6ad70..5bea374 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -5,7 +5,6 @@
 """Appends a userfcn to the list to be called for a case.
 """
 
-from sys import stderr
 
 def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
     """Appends a userfcn to the list to be called for a case.
@@ -91,7 +90,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
         args = []
 
     if stage not in ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']:
-        stderr.write('add_userfcn : \'%s\' is not the name of a valid callback stage\n' % stage)
+        raise ValueError('add_userfcn : \'%s\' is not the name of a valid callback stage' % stage)
 
     n = 0
     if 'userfcn' in ppc:
@@ -100,14 +99,12 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
             if not allow_multiple:
                 for k in range(n):
                     if ppc['userfcn'][stage][k]['fcn'] == fcn:
-                        stderr.write('add_userfcn: the function \'%s\' has already been added\n' % fcn.__name__)
+                        raise ValueError('add_userfcn: the function \'%s\' has already been added' % fcn.__name__)
         else:
             ppc['userfcn'][stage] = []
     else:
         ppc['userfcn'] = {stage: []}
 
-    ppc['userfcn'][stage].append({'fcn': fcn})
-    if len(args) > 0:
-        ppc['userfcn'][stage][n]['args'] = args
+    ppc['userfcn'][stage].append({'fcn': fcn, 'args': args})
 
     return ppc
-- 
2.43.0


From 5fa79ccfe48a62f2215800a9cbed4db3ec7a09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:45 +0000
Subject: [PATCH 39/86] fix: remove_userfcn of a callback that was never added
 leaves the case alone

---
 pypower/remove_userfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/remove_userfcn.py b/pypower/remove_userfcn.py
index e9146ec..0dbe60b 100644
--- a/pypower/remove_userfcn.py
+++ b/pypower/remove_userfcn.py
@@ -18,7 +18,7 @@ def remove_userfcn(ppc, stage, fcn):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    n = len(ppc['userfcn'][stage])
+    n = len(ppc.get('userfcn', {}).get(stage, []))
 
     for k in range(n - 1, -1, -1):
         if ppc['userfcn'][stage][k]['fcn'] == fcn:
-- 
2.43.0


From 11a5e5f4d7ed6b4e3d29cf8280d93e497beae4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:57 +0000
Subject: [PATCH 40/86] fix: printpf runs printpf callbacks after a power flow

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 5464b53..8556465 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -685,5 +685,5 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ## execute userfcn callbacks for 'printpf' stage
     if have_results_struct and 'userfcn' in results:
         if not isOPF:  ## turn off option for all constraints if it isn't an OPF
-            ppopt = ppoption(ppopt, 'OUT_ALL_LIM', 0)
+            ppopt = ppoption(ppopt, OUT_ALL_LIM=0)
         run_userfcn(results["userfcn"], 'printpf', results, fd, ppopt)
-- 
2.43.0


From e51c343a1c5f11b463127c8751cead9742879a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 41/86] fix: opf_setup uses the model returned by formulation
 callbacks

---
 pypower/opf_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 7dd4b11..378e57e 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -260,6 +260,6 @@ def opf_setup(ppc, ppopt):
         om.add_costs('usr', user_cost, user_vars)
 
     ## execute userfcn callbacks for 'formulation' stage
-    run_userfcn(userfcn, 'formulation', om)
+    om = run_userfcn(userfcn, 'formulation', om)
 
     return om
-- 
2.43.0


From 99c0a463ee1425562d0e3eb0d3523a640482cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:22 +0000
Subject: [PATCH 42/86] fix: printpf does not modify DC results

---
 pypower/printpf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 8556465..839cad2 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -136,6 +136,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
 
     ## zero out some data to make printout consistent for DC case
     if isDC:
+        bus, gen, branch = bus.copy(), gen.copy(), branch.copy()
         bus[:, r_[QD, BS]]          = zeros((nb, 2))
         gen[:, r_[QG, QMAX, QMIN]]  = zeros((ng, 3))
         branch[:, r_[BR_R, BR_B]]   = zeros((nl, 2))
-- 
2.43.0


From 17d6d2c5f1c5c6f5751170a0694d7f58aaf856b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 43/86] fix: printpf area summary lists the first area

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 839cad2..d31ba1c 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -152,7 +152,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     nzld = find((bus[:, PD] != 0.0) | (bus[:, QD] != 0.0))
     sorted_areas = sort(bus[:, BUS_AREA])
     ## area numbers
-    s_areas = sorted_areas[r_[1, find(diff(sorted_areas)) + 1]]
+    s_areas = sorted_areas[r_[0, find(diff(sorted_areas)) + 1]]
     nzsh = find((bus[:, GS] != 0.0) | (bus[:, BS] != 0.0))
     allg = find( ~isload(gen) )
     ong  = find( (gen[:, GEN_STATUS] > 0) & ~isload(gen) )
-- 
2.43.0


From 4aae482009159abf05935e2e830e269791d4b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 44/86] fix: printpf reports binding voltage constraints

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index d31ba1c..4a13ec4 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -455,7 +455,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     if isOPF:
         ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
         ## voltage constraints
-        if (not isDC) & (OUT_V_LIM == 2 | (OUT_V_LIM == 1 &
+        if (not isDC) & ((OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              (any(bus[:, VM] < bus[:, VMIN] + ctol) |
                               any(bus[:, VM] > bus[:, VMAX] - ctol) |
                               any(bus[:, MU_VMIN] > ptol) |
@@ -466,7 +466,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
             fd.write('\nBus #  Vmin mu    Vmin    |V|   Vmax    Vmax mu')
             fd.write('\n-----  --------   -----  -----  -----   --------')
             for i in range(nb):
-                if (OUT_V_LIM == 2) | (OUT_V_LIM == 1 &
+                if (OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              ((bus[i, VM] < bus[i, VMIN] + ctol) |
                               (bus[i, VM] > bus[i, VMAX] - ctol) |
                               (bus[i, MU_VMIN] > ptol) |
-- 
2.43.0


From 8f277b44d1f81ee01b82b08ff664769fbb045d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:02 +0000
Subject: [PATCH 45/86] fix: printpf reports dispatchable load constraints

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 4a13ec4..8f80cc2 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -621,7 +621,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                              (gen[i, QG] > gen[i, QMAX] - ctol) |
                              (gen[i, MU_QMIN] > ptol) |
                              (gen[i, MU_QMAX] > ptol))):
-                    fd.write('\n%3d%5d' % (i, gen(i, GEN_BUS)))
+                    fd.write('\n%3d%5d' % (i, gen[i, GEN_BUS]))
                     if (gen[i, QG] < gen[i, QMIN] + ctol) | (gen[i, MU_QMIN] > ptol):
                         fd.write('%8.3f' % gen[i, MU_QMIN])
                     else:
-- 
2.43.0


From 6a8a89e0d7152b22b28c6b9b05901e39e148e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:14 +0000
Subject: [PATCH 46/86] fix: printpf prints to stdout by default with explicit
 options

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 8f80cc2..18db1c3 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -82,8 +82,8 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
         have_results_struct = 0
         if ppopt is None:
             ppopt = ppoption()   ## use default options
-            if fd is None:
-                fd = stdout         ## print to stdout by default
+        if fd is None:
+            fd = stdout         ## print to stdout by default
         if ppopt['OUT_ALL'] == 0:
             return     ## nothin' to see here, bail out now
 
-- 
2.43.0


From d23a8e79bb8ed444c30a8d437437e6530a7644ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 47/86] fix: toggle_iflims handles first branch, out-of-service
 branches, any order of limits and returns the map as given

---
 pypower/toggle_iflims.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 5328f28..bbd8884 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -9,7 +9,7 @@ from sys import stderr
 
 from pprint import pprint
 
-from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
+from numpy import zeros, ones, arange, where, c_
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -93,15 +93,14 @@ def userfcn_iflims_ext2int(ppc, *args):
     ppc['order']['ext']['ifmap'] = ifmap
 
     ##-----  convert stuff to internal indexing  -----
-    e2i = zeros(nl0)
+    e2i = -ones(nl0, int)
     e2i[o['branch']['status']['on']] = arange(nl)  ## ext->int branch index mapping
-    d = sign(ifmap[:, 1])
-    br = abs(ifmap[:, 1]).astype(int)
-    ifmap[:, 1] = d * e2i[br]
+    d = where(ifmap[:, 1] < 0, -1, 1)    ## branch indices start at 0
+    br = e2i[abs(ifmap[:, 1]).astype(int)]
 
-    ifmap = delete(ifmap, find(ifmap[:, 1] == 0), 0)  ## delete branches that are out
-
-    ppc['if']['map'] = ifmap
+    ## internal map has separate columns for branch index and direction,
+    ## branches that are out are deleted
+    ppc['if']['map'] = c_[ifmap[:, 0].astype(int), br, d][br >= 0, :]
 
     return ppc
 
@@ -123,7 +122,7 @@ def userfcn_iflims_formulation(om, *args):
     n = Bf.shape[1]                    ## dim of theta
 
     ## form constraints
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list
     nifs = len(ifidx)              ## number of interfaces
     Aif = lil_matrix((nifs, n))
     lif = zeros(nifs)
@@ -131,11 +130,10 @@ def userfcn_iflims_formulation(om, *args):
     for k in range(nifs):
         ## extract branch indices
         br = ifmap[ifmap[:, 0] == ifidx[k], 1]
+        d = ifmap[ifmap[:, 0] == ifidx[k], 2]
         if len(br) == 0:
-            stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % k)
+            stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % ifidx[k])
 
-        d = sign(br)
-        br = abs(br)
         Ak = sparse((1, n))              ## Ak = sum( d(i) * Bf(i, :) )
         bk = 0                           ## bk = sum( d(i) * Pfinj(i) )
         for i in range(len(br)):
@@ -168,14 +166,13 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list
     nifs = len(ifidx)           ## number of interfaces
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
         br = ifmap[ifmap[:, 0] == ifidx[k], 1]
-        d = sign(br)
-        br = abs(br)
+        d = ifmap[ifmap[:, 0] == ifidx[k], 2]
         results['if']['P'][k] = sum( d * results['branch'][br, PF] )
 
     if 'mu' not in results['if']:
@@ -204,7 +201,7 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         fd.write('\n Interface  Shadow Prc  Lower Lim      Flow      Upper Lim   Shadow Prc')
         fd.write('\n     #        ($/MW)       (MW)        (MW)        (MW)       ($/MW)   ')
         fd.write('\n----------  ----------  ----------  ----------  ----------  -----------')
-        ifidx = unique(iflims[:, 0])   ## interface number list
+        ifidx = iflims[:, 0]           ## interface number list
         nifs = len(ifidx)           ## number of interfaces
         for k in range(nifs):
             fd.write('\n%6d ', iflims(k, 1))
-- 
2.43.0


From 8c473585df7c31f071b295eb029de47313032dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:38 +0000
Subject: [PATCH 48/86] fix: toggle_iflims prints interface flows

---
 pypower/toggle_iflims.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index bbd8884..6fabcd8 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -204,7 +204,7 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         ifidx = iflims[:, 0]           ## interface number list
         nifs = len(ifidx)           ## number of interfaces
         for k in range(nifs):
-            fd.write('\n%6d ', iflims(k, 1))
+            fd.write('\n%6d ' % ifidx[k])
             if results['if']['mu']['l'][k] > ptol:
                 fd.write('%14.3f' % results['if']['mu']['l'][k])
             else:
-- 
2.43.0


From c20a1a417771013ab23a4d72a368473d4a720f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:49 +0000
Subject: [PATCH 49/86] fix: toggle_iflims saves interface data as loadable
 Python

---
 pypower/toggle_iflims.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 6fabcd8..39f9019 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -7,7 +7,6 @@
 
 from sys import stderr
 
-from pprint import pprint
 
 from numpy import zeros, ones, arange, where, c_
 
@@ -230,25 +229,23 @@ def userfcn_iflims_savecase(ppc, fd, prefix, *args):
     ifmap = ppc['if']['map']
     iflims = ppc['if']['lims']
 
-    fd.write('\n####-----  Interface Flow Limit Data  -----####\n')
-    fd.write('#### interface<->branch map data\n')
-    fd.write('##\tifnum\tbranchidx (negative defines opposite direction)\n')
-    fd.write('%sif.map = [\n' % prefix)
-    fd.write('\t%d\t%d;\n' % ifmap.T)
-    fd.write('];\n')
+    fd.write('\n    ####-----  Interface Flow Limit Data  -----####\n')
+    fd.write("    %s['if'] = {}\n" % prefix)
+    fd.write('    #### interface<->branch map data\n')
+    fd.write('    ## ifnum branchidx (negative defines opposite direction)\n')
+    fd.write("    %s['if']['map'] = array(%s)\n" % (prefix, ifmap.tolist()))
 
-    fd.write('\n#### interface flow limit data (based on DC model)\n')
-    fd.write('#### (lower limit should be negative for opposite direction)\n')
-    fd.write('##\tifnum\tlower\tupper\n')
-    fd.write('%sif.lims = [\n' % prefix)
-    fd.write('\t%d\t%g\t%g;\n' % iflims.T)
-    fd.write('];\n')
+    fd.write('\n    #### interface flow limit data (based on DC model)\n')
+    fd.write('    #### (lower limit should be negative for opposite direction)\n')
+    fd.write('    ## ifnum lower upper\n')
+    fd.write("    %s['if']['lims'] = array(%s)\n" % (prefix, iflims.tolist()))
 
     ## save output fields for solved case
     if ('P' in ppc['if']):
-        fd.write('\n#### solved values\n')
-        fd.write('%sif.P = %s\n' % (prefix, pprint(ppc['if']['P'])))
-        fd.write('%sif.mu.l = %s\n' % (prefix, pprint(ppc['if']['mu']['l'])))
-        fd.write('%sif.mu.u = %s\n' % (prefix, pprint(ppc['if']['mu']['u'])))
+        fd.write('\n    #### solved values\n')
+        fd.write("    %s['if']['P'] = array(%s)\n" % (prefix, ppc['if']['P'].tolist()))
+        fd.write("    %s['if']['mu'] = {}\n" % prefix)
+        fd.write("    %s['if']['mu']['l'] = array(%s)\n" % (prefix, ppc['if']['mu']['l'].tolist()))
+        fd.write("    %s['if']['mu']['u'] = array(%s)\n" % (prefix, ppc['if']['mu']['u'].tolist()))
 
     return ppc
-- 
2.43.0


From 48f89ba5e68381022e1ed8403c41f56cbfafca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:05 +0000
Subject: [PATCH 50/86] fix: toggle_reserves saves reserve data as loadable
 Python

---
 pypower/toggle_reserves.py | 58 ++++++++++++++------------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 0269cab..1a36457 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -10,7 +10,6 @@ from pypower.i2e_data import i2e_data
 
 from sys import stderr
 
-from pprint import pprint
 
 from numpy import zeros, ones, arange, inf, any, flatnonzero as find
 
@@ -365,46 +364,31 @@ def userfcn_reserves_savecase(ppc, fd, prefix, *args):
     """
     r = ppc['reserves']
 
-    fd.write('\n####-----  Reserve Data  -----####\n')
-    fd.write('#### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
-    fd.write('%sreserves.zones = [\n' % prefix)
-    template = ''
-    for _ in range(r['zones'].shape[1]):
-        template = template + '\t%d'
-    template = template + ';\n'
-    fd.write(template, r.zones.T)
-    fd.write('];\n')
-
-    fd.write('\n#### reserve requirements for each zone in MW\n')
-    fd.write('%sreserves.req = [\t%g' % (prefix, r['req'][0]))
-    if len(r['req']) > 1:
-        fd.write(';\t%g' % r['req'][1:])
-    fd.write('\t];\n')
-
-    fd.write('\n#### reserve costs in $/MW for each gen that belongs to at least 1 zone\n')
-    fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-    fd.write('%sreserves.cost = [\t%g' % (prefix, r['cost'][0]))
-    if len(r['cost']) > 1:
-        fd.write(';\t%g' % r['cost'][1:])
-    fd.write('\t];\n')
+    fd.write('\n    ####-----  Reserve Data  -----####\n')
+    fd.write("    %s['reserves'] = {}\n" % prefix)
+    fd.write('    #### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
+    fd.write("    %s['reserves']['zones'] = array(%s)\n" % (prefix, r['zones'].tolist()))
+
+    fd.write('\n    #### reserve requirements for each zone in MW\n')
+    fd.write("    %s['reserves']['req'] = array(%s)\n" % (prefix, r['req'].tolist()))
+
+    fd.write('\n    #### reserve costs in $/MW for each gen that belongs to at least 1 zone\n')
+    fd.write('    #### (same order as gens, but skipping any gen that does not belong to any zone)\n')
+    fd.write("    %s['reserves']['cost'] = array(%s)\n" % (prefix, r['cost'].tolist()))
 
     if 'qty' in r:
-        fd.write('\n#### OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n')
-        fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-        fd.write('%sreserves.qty = [\t%g' % (prefix, r['qty'][0]))
-        if len(r['qty']) > 1:
-            fd.write(';\t%g' % r['qty'][1:])
-        fd.write('\t];\n')
+        fd.write('\n    #### OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n')
+        fd.write('    #### (same order as gens, but skipping any gen that does not belong to any zone)\n')
+        fd.write("    %s['reserves']['qty'] = array(%s)\n" % (prefix, r['qty'].tolist()))
 
     ## save output fields for solved case
     if 'R' in r:
-        fd.write('\n#### solved values\n')
-        fd.write('%sreserves.R = %s\n' % (prefix, pprint(r['R'])))
-        fd.write('%sreserves.Rmin = %s\n' % (prefix, pprint(r['Rmin'])))
-        fd.write('%sreserves.Rmax = %s\n' % (prefix, pprint(r['Rmax'])))
-        fd.write('%sreserves.mu.l = %s\n' % (prefix, pprint(r['mu']['l'])))
-        fd.write('%sreserves.mu.u = %s\n' % (prefix, pprint(r['mu']['u'])))
-        fd.write('%sreserves.prc = %s\n' % (prefix, pprint(r['prc'])))
-        fd.write('%sreserves.totalcost = %s\n' % (prefix, pprint(r['totalcost'])))
+        fd.write('\n    #### solved values\n')
+        for key in ['R', 'Rmin', 'Rmax', 'prc']:
+            fd.write("    %s['reserves']['%s'] = array(%s)\n" % (prefix, key, r[key].tolist()))
+        fd.write("    %s['reserves']['mu'] = {}\n" % prefix)
+        for key in ['l', 'u', 'Pmax']:
+            fd.write("    %s['reserves']['mu']['%s'] = array(%s)\n" % (prefix, key, r['mu'][key].tolist()))
+        fd.write("    %s['reserves']['totalcost'] = %r\n" % (prefix, float(r['totalcost'])))
 
     return ppc
-- 
2.43.0


From 8bb31dc6b5796b8f76bb4922b85b137faaea2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:22 +0000
Subject: [PATCH 51/86] fix: toggle_dcline reports invalid data and negative
 losses

---
 pypower/toggle_dcline.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index a75dbcc..04beae6 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -58,18 +58,17 @@ def toggle_dcline(ppc, on_off):
 
         if 'dcline' not in ppc or ppc['dcline'].shape[1] < c["LOSS1"] + 1:
             raise ValueError('toggle_dcline: case must contain a '
-                    '\'dcline\' field, an ndc x %d matrix.', c["LOSS1"])
+                    '\'dcline\' field, an ndc x %d matrix.' % (c["LOSS1"] + 1))
 
         if 'dclinecost' in ppc and ppc['dcline'].shape[0] != ppc['dclinecost'].shape[0]:
             raise ValueError('toggle_dcline: number of rows in \'dcline\''
                     ' field (%d) and \'dclinecost\' field (%d) do not match.' %
                 (ppc['dcline'].shape[0], ppc['dclinecost'].shape[0]))
 
-        k = find(ppc['dcline'][:, c["LOSS1"]] < 0)
-        if len(k) > 0:
+        for k in find(ppc['dcline'][:, c["LOSS1"]] < 0):
             warn('toggle_dcline: linear loss term is negative for DC line '
                    'from bus %d to %d\n' %
-                  ppc['dcline'][k, c['F_BUS']:c['T_BUS'] + 1].T)
+                  tuple(ppc['dcline'][k, c['F_BUS']:c['T_BUS'] + 1]))
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
-- 
2.43.0


From 8ed55e3f6c58fa882a17d7c42c1feaa68a5ac075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:38 +0000
Subject: [PATCH 52/86] fix: toggle_dcline converts terminal buses to internal
 indexing

---
 pypower/toggle_dcline.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 04beae6..4796c6d 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -4,7 +4,7 @@
 
 from math import inf
 
-from numpy import array, ones, zeros, r_, c_, concatenate, shape
+from numpy import array, ones, zeros, r_, c_, concatenate, isin
 from numpy import flatnonzero as find
 
 from scipy.sparse import spdiags, hstack, vstack, csr_matrix as sparse
@@ -19,7 +19,7 @@ from pypower.isload import isload
 from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
 
-from pypower.idx_bus import BUS_TYPE, REF, PV
+from pypower.idx_bus import BUS_I, BUS_TYPE, REF, PV
 from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST
 
 
@@ -113,23 +113,25 @@ def userfcn_dcline_ext2int(ppc, args):
     if havecost:
         ppc['order']['ext']['dclinecost'] = ppc['dclinecost']  ## external indexing
 
-    ppc['order']['ext']['status']  = {}
-    ## work with only in-service DC lines
-    ppc['order']['ext']['status']['on']  = find(ppc['dcline'][:, c['BR_STATUS']] >  0)
-    ppc['order']['ext']['status']['off'] = find(ppc['dcline'][:, c['BR_STATUS']] <= 0)
+    ## work with only in-service DC lines (those at isolated buses are out)
+    o = ppc['order']
+    isolated = o['ext']['bus'][o['bus']['status']['off'], BUS_I]
+    on = (ppc['dcline'][:, c['BR_STATUS']] > 0) & \
+        ~isin(ppc['dcline'][:, c['F_BUS']], isolated) & \
+        ~isin(ppc['dcline'][:, c['T_BUS']], isolated)
+    o['dcline'] = {'status': {'on': find(on), 'off': find(~on)}}
 
     ## remove out-of-service DC lines
-    dc = ppc['dcline'][ppc['order']['ext']['status']['on'], :] ## only in-service DC lines
+    dc = ppc['dcline'][o['dcline']['status']['on'], :] ## only in-service DC lines
     if havecost:
-        dcc = ppc['dclinecost'][ppc['order']['ext']['status']['on'], :]    ## only in-service DC lines
+        dcc = ppc['dclinecost'][o['dcline']['status']['on'], :]    ## only in-service DC lines
         ppc['dclinecost'] = dcc
 
     ndc = dc.shape[0]          ## number of in-service DC lines
-    o = ppc['order']
 
     ##-----  convert stuff to internal indexing  -----
-    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']]]
-    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']]]
+    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']].astype(int)]
+    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']].astype(int)]
     ppc['dcline'] = dc
 
     ##-----  create gens to represent DC line terminals  -----
@@ -180,8 +182,8 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## set all terminal buses to PV (except ref bus)
     refbus = find(ppc['bus'][:, BUS_TYPE] == REF)
-    ppc['bus'][dc[:, c['F_BUS']], BUS_TYPE] = PV
-    ppc['bus'][dc[:, c['T_BUS']], BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['F_BUS']].astype(int), BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['T_BUS']].astype(int), BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
     ## append dummy gens
-- 
2.43.0


From 95ce2fbf12de4521df2f5cb03f25b337b5472530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 53/86] fix: toggle_dcline appends the cost of DC lines to
 gencost

---
 pypower/toggle_dcline.py | 54 +++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 4796c6d..94cb8a7 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -191,45 +191,47 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## gencost
     if 'gencost' in ppc and len(ppc['gencost']) > 0:
+        ng = ppc['gen'].shape[0] - 2 * ndc  ## number of original gens/disp loads
         ngcr, ngcc = ppc['gencost'].shape   ## dimensions of gencost
+        ccc = ngcc                          ## number of columns in new gencost
         if havecost:         ## user has provided costs
-            ndccc = dcc.shape[1]           ## number of dclinecost columns
-            ccc = max(r_[ngcc, ndccc])     ## number of columns in new gencost
+            ccc = max(ngcc, dcc.shape[1])
             if ccc > ngcc:                 ## right zero-pad gencost
-                ppc.gencost = c_[ppc['gencost'], zeros(ngcr, ccc-ngcc)]
+                ppc['gencost'] = c_[ppc['gencost'], zeros((ngcr, ccc - ngcc))]
 
-            ## flip function across vertical axis and append to gencost
+        ## use zero cost as default
+        dcgc = zeros((2 * ndc, ccc))
+        dcgc[:, MODEL] = POLYNOMIAL
+        dcgc[:, NCOST] = 2
+        zgc = dcgc.copy()
+
+        if havecost:
+            ## flip function across vertical axis
             ## (PF for DC line = -PG for dummy gen at "from" bus)
             for k in range(ndc):
+                nc = int(dcc[k, NCOST])
+                dcgc[k, :NCOST + 1] = dcc[k, :NCOST + 1]
+                dcgc[k, NCOST + 1:] = 0
                 if dcc[k, MODEL] == POLYNOMIAL:
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(nc + 1)]
+                    temp = dcc[k, NCOST + 1:NCOST + 1 + nc].copy()
                     ## flip sign on coefficients of odd terms
                     ## (every other starting with linear term,
                     ##  that is, the next to last one)
-#                    temp((nc-1):-2:1) = -temp((nc-1):-2:1)
-                    temp[range(nc, 0, -2)] = -temp[range(nc, 0, -2)]
+                    temp[-2::-2] = -temp[-2::-2]
                 else:  ## dcc(k, MODEL) == PW_LINEAR
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(2*nc + 1)]
+                    temp = dcc[k, NCOST + 1:NCOST + 1 + 2 * nc].copy()
                     ## switch sign on horizontal coordinate
-                    xx = -temp[range(0, 2 * nc + 1, 2)]
-                    yy =  temp[range(1, 2 * nc + 1, 2)]
-                    temp[range(0, 2*nc + 1, 2)] = xx[-1::-1]
-                    temp[range(1, 2*nc + 1, 2)] = yy[-1::-1]
-
-                padding = zeros(ccc - NCOST - len(temp))
-                gck = c_[dcc[k, :NCOST + 1], temp, padding]
-
-                ## append to gencost
-                ppc['gencost'] = r_[ppc['gencost'], gck]
-
-            ## use zero cost on "to" end gen
-            tgc = ones((ndc, 1)) * [2, 0, 0, 2, zeros(ccc-4)]
-            ppc['gencost'] = c_[ppc['gencost'], tgc]
+                    xx = -temp[0::2]
+                    yy =  temp[1::2].copy()
+                    temp[0::2] = xx[::-1]
+                    temp[1::2] = yy[::-1]
+                dcgc[k, NCOST + 1:NCOST + 1 + len(temp)] = temp
+
+        ## append to gencost, zero cost for reactive power
+        if ngcr > ng:
+            ppc['gencost'] = r_[ppc['gencost'][:ng, :], dcgc,
+                                ppc['gencost'][ng:, :], zgc]
         else:
-            ## use zero cost as default
-            dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
             ppc['gencost'] = r_[ppc['gencost'], dcgc]
 
     return ppc
-- 
2.43.0


From 3354f8a74f3d5c95f47e30757ad87f057993f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 54/86] fix: toggle_dcline formulation callback returns the OPF
 model

---
 pypower/toggle_dcline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 94cb8a7..36a6267 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -275,7 +275,7 @@ def userfcn_dcline_formulation(om, args):
     Adc = hstack([sparse((ndc, ng)), spdiags(1-L1, 0, ndc, ndc), speye(ndc, ndc)], format="csr")
 
     ## add them to the model
-    om = om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
+    om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
 
     return om
 
-- 
2.43.0


From 3e3811f8b5c2c585ed538cc1e965f43db6b25463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:08 +0000
Subject: [PATCH 55/86] fix: toggle_dcline maps results of DC lines back to the
 case

---
 pypower/toggle_dcline.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 36a6267..95381de 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -296,7 +296,7 @@ def userfcn_dcline_int2ext(results, args):
 
     ## initialize some things
     o = results['order']
-    k = find(o['ext']['dcline'][:, c['BR_STATUS']])
+    k = o['dcline']['status']['on']
     ndc = len(k)                    ## number of in-service DC lines
     ng  = results['gen'].shape[0] - 2*ndc; ## number of original gens/disp loads
 
@@ -308,7 +308,8 @@ def userfcn_dcline_int2ext(results, args):
     #results['gen']     = results['gen'][:ng + 1, :]
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
-    results['gencost'] = results['gencost'][:ng, :]
+    if 'gencost' in results and len(results['gencost']) > 0:
+        results['gencost'] = results['gencost'][:ng, :]
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
@@ -317,8 +318,8 @@ def userfcn_dcline_int2ext(results, args):
     results['dcline'][:, c['QT']] =  tg[:, QG]
     results['dcline'][:, c['VF']] =  fg[:, VG]
     results['dcline'][:, c['VT']] =  tg[:, VG]
-    if fg.shape[1] >= MU_QMIN:
-        results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
+    if fg.shape[1] > MU_QMIN:
+        results['dcline'] = c_[results['dcline'][:, :c['MU_PMIN']], zeros((ndc, 6))]
         results['dcline'][:, c['MU_PMIN'] ] = fg[:, MU_PMAX] + tg[:, MU_PMIN]
         results['dcline'][:, c['MU_PMAX'] ] = fg[:, MU_PMIN] + tg[:, MU_PMAX]
         results['dcline'][:, c['MU_QMINF']] = fg[:, MU_QMIN]
@@ -326,13 +327,13 @@ def userfcn_dcline_int2ext(results, args):
         results['dcline'][:, c['MU_QMINT']] = tg[:, MU_QMIN]
         results['dcline'][:, c['MU_QMAXT']] = tg[:, MU_QMAX]
 
-    results['order']['int'] = {}
     ##-----  convert stuff back to external indexing  -----
-    results['order']['int']['dcline'] = results['dcline']  ## save internal version
+    o.setdefault('int', {})['dcline'] = results['dcline']  ## save internal version
     ## copy results to external version
     o['ext']['dcline'][k, c['PF']:c['VT'] + 1] = results['dcline'][:, c['PF']:c['VT'] + 1]
     if results['dcline'].shape[1] == c['MU_QMAXT'] + 1:
-        o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((ndc, 6))]
+        o['ext']['dcline'] = c_[o['ext']['dcline'][:, :c['MU_PMIN']],
+                                zeros((o['ext']['dcline'].shape[0], 6))]
         o['ext']['dcline'][k, c['MU_PMIN']:c['MU_QMAXT'] + 1] = \
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
-- 
2.43.0


From ba49759780debc0bd2d92887c47f98450bd887aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 56/86] fix: toggle_dcline prints out-of-service DC lines and
 power flow results

---
 pypower/toggle_dcline.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 95381de..ee2cb67 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -388,15 +388,16 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
                 loss = loss + dc[k, c['PF']] - dc[k, c['PT']]
             else:
                 fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                            (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                            (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n                                              ---------')
         fd.write('\n                                     Total:{0:11.2f}\n'.format(loss))
 
-    if OUT_LINE_LIM == 2 or (OUT_LINE_LIM == 1 and
+    isOPF = dc.shape[1] > c['MU_PMAX']     ## multipliers are available
+    if isOPF and (OUT_LINE_LIM == 2 or (OUT_LINE_LIM == 1 and
             (any(dc[kk, c['PF']] > dc[kk, c['PMAX']] - ctol) or
              any(dc[kk, c['MU_PMIN']] > ptol) or
-             any(dc[kk, c['MU_PMAX']] > ptol))):
+             any(dc[kk, c['MU_PMAX']] > ptol)))):
         fd.write('\n================================================================================')
         fd.write('\n|     DC Line Constraints                                                      |')
         fd.write('\n================================================================================')
@@ -425,7 +426,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
 
                 else:
                     fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                                (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                                (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n')
 
-- 
2.43.0


From 8f961d876fa74fdad6b28ec54af86c9f5e391698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:36 +0000
Subject: [PATCH 57/86] fix: toggle_dcline saves DC line data as loadable
 Python

---
 pypower/toggle_dcline.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index ee2cb67..0a920ba 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -445,19 +445,20 @@ def userfcn_dcline_savecase(ppc, fd, prefix, args):
 
     ## save it
     ncols = ppc['dcline'].shape[1]
-    fd.write('\n####-----  DC Line Data  -----####\n')
-    if ncols < c['MU_QMAXT']:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\n')
-    else:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\tmuPmin\tmuPmax\tmuQminF\tmuQmaxF\tmuQminT\tmuQmaxT\n')
-
-    template = '\t%d\t%d\t%d\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g'
-    if ncols == c['MU_QMAXT'] + 1:
-        template = [template, '\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f']
+    fd.write('\n    ####-----  DC Line Data  -----####\n')
+    fd.write('    ## fbus tbus status Pf Pt Qf Qt Vf Vt Pmin Pmax QminF QmaxF QminT QmaxT loss0 loss1')
+    if ncols > c['MU_QMAXT']:
+        fd.write(' muPmin muPmax muQminF muQmaxF muQminT muQmaxT')
+    fd.write("\n    %s['dcline'] = array([\n" % prefix)
+    for row in ppc['dcline'].tolist():
+        fd.write('        %s,\n' % row)
+    fd.write('    ])\n')
 
-    template = template + ';\n'
-    fd.write('%sdcline = [\n' % prefix)
-    fd.write(template, ppc['dcline'].T)
-    fd.write('];\n')
+    if 'dclinecost' in ppc:
+        fd.write('\n    ## DC line cost data\n')
+        fd.write("    %s['dclinecost'] = array([\n" % prefix)
+        for row in ppc['dclinecost'].tolist():
+            fd.write('        %s,\n' % row)
+        fd.write('    ])\n')
 
     return ppc
-- 
2.43.0


From c8d675309af2f1e751e13a533cc01530b6e10568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 58/86] fix: toggle_dcline returns the cost of all DC lines

---
 pypower/toggle_dcline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 0a920ba..afcc52f 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -338,6 +338,8 @@ def userfcn_dcline_int2ext(results, args):
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
     results['dcline'] = o['ext']['dcline']            ## use external version
+    if 'dclinecost' in o['ext']:
+        results['dclinecost'] = o['ext']['dclinecost']
 
     return results
 
-- 
2.43.0


From 6d0f4523f9cb0726e8e099ea20dd2167130712b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 59/86] fix: OPF starting point of variables bounded on one
 side only

---
 pypower/dcopf_solver.py   | 6 +++++-
 pypower/pipsopf_solver.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 23d1b0c..b9b3f81 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -191,7 +191,11 @@ def dcopf_solver(om, ppopt, out_opt=None):
         lb, ub = xmin.copy(), xmax.copy()
         lb[xmin == -inf] = -1e10   ## replace inf with numerical proxies
         ub[xmax ==  inf] =  1e10
-        x0 = (lb + ub) / 2;
+        x0 = (lb + ub) / 2
+        k = (xmin == -inf) & (xmax < inf)      ## if only bounded above ...
+        x0[k] = xmax[k] - 1                   ## ... set just below upper bound
+        k = (xmin > -inf) & (xmax == inf)      ## if only bounded below ...
+        x0[k] = xmin[k] + 1                   ## ... set just above lower bound
         # angles set to first reference angle
         x0[vv["i1"]["Va"]:vv["iN"]["Va"]] = Varefs[0]
         if ny > 0:
diff --git a/pypower/pipsopf_solver.py b/pypower/pipsopf_solver.py
index 020755f..1db52fa 100644
--- a/pypower/pipsopf_solver.py
+++ b/pypower/pipsopf_solver.py
@@ -112,6 +112,10 @@ def pipsopf_solver(om, ppopt, out_opt=None):
     ll[xmin == -inf] = -1e10   ## replace inf with numerical proxies
     uu[xmax ==  inf] =  1e10
     x0 = (ll + uu) / 2
+    k = (xmin == -inf) & (xmax < inf)      ## if only bounded above ...
+    x0[k] = xmax[k] - 1                   ## ... set just below upper bound
+    k = (xmin > -inf) & (xmax == inf)      ## if only bounded below ...
+    x0[k] = xmin[k] + 1                   ## ... set just above lower bound
     Varefs = bus[bus[:, BUS_TYPE] == REF, VA] * (pi / 180)
     ## angles set to first reference angle
     x0[vv["i1"]["Va"]:vv["iN"]["Va"]] = Varefs[0]
-- 
2.43.0


From c9d5eebfa5bc2a137bf5e960aab62470fd334ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 60/86] fix: fairmax selects one of the positions of the
 maximum

---
 pypower/fairmax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/fairmax.py b/pypower/fairmax.py
index 3b27c06..eeb01d2 100644
--- a/pypower/fairmax.py
+++ b/pypower/fairmax.py
@@ -6,7 +6,7 @@
 """
 
 from random import random
-from numpy import nonzero, fix
+from numpy import flatnonzero as find
 
 
 def fairmax(x):
@@ -23,8 +23,8 @@ def fairmax(x):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     val = max(x)                      ## find max value
-    i   = nonzero(x == val)           ## find all positions where this occurs
+    i   = find(x == val)              ## find all positions where this occurs
     n   = len(i)                      ## number of occurences
-    idx = i( fix(n * random()) + 1 )  ## select index randomly among occurances
+    idx = i[int(n * random())]        ## select index randomly among occurances
 
     return val, idx
-- 
2.43.0


From 96613f266cfd72365aa201b28eaa4a3eab926427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 61/86] fix: uopf sheds minimum generation only from units that
 have any

---
 pypower/uopf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 7284644..a6b3226 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -60,9 +60,12 @@ def uopf(*args):
     Pmin = ppc["gen"][on, PMIN]
     while sum(Pmin) > load_capacity:
         ## shut down most expensive unit
-        avgPmincost = totcost(ppc["gencost"][on, :], Pmin) / Pmin
+        k = find(Pmin > 0)
+        if len(k) == 0:
+            break                     ## no minimum generation left to shed
+        avgPmincost = totcost(ppc["gencost"][on[k], :], Pmin[k]) / Pmin[k]
         _, i = fairmax(avgPmincost)   ## pick one with max avg cost at Pmin
-        i = on[i]                     ## convert to generator index
+        i = on[k[i]]                  ## convert to generator index
 
         if verbose:
             print('Shutting down generator %d so all Pmin limits can be satisfied.\n' % i)
-- 
2.43.0


From 2afd9d6fc339df4fa97740250905d49748f41283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 62/86] fix: printpf prints limits of dispatchable loads

---
 pypower/printpf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 18db1c3..2155c60 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -595,9 +595,9 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                     else:
                         fd.write('     -  ')
                     if gen[i, PG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [PMIN, PG, PMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [PMIN, PG, PMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [PMIN, PMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [PMIN, PMAX]]))
 
                     if (gen[i, PG] > gen[i, PMAX] - ctol) | (gen[i, MU_PMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_PMAX])
@@ -628,9 +628,9 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                         fd.write('     -  ')
 
                     if gen[i, QG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [QMIN, QG, QMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [QMIN, QG, QMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [QMIN, QMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [QMIN, QMAX]]))
 
                     if (gen[i, QG] > gen[i, QMAX] - ctol) | (gen[i, MU_QMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_QMAX])
-- 
2.43.0


From 0fc43166c1cff66c6e12d18e1a5321b3ea9a0b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:47 +0000
Subject: [PATCH 63/86] fix: runuopf prints the report selected by the options

---
 pypower/runuopf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/runuopf.py b/pypower/runuopf.py
index f840670..b996c1b 100644
--- a/pypower/runuopf.py
+++ b/pypower/runuopf.py
@@ -43,7 +43,7 @@ def runuopf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 fd.close()
 
     else:
-        printpf(r, stdout, ppopt=ppopt)
+        printpf(r, stdout, ppopt)
 
     ## save solved case
     if solvedcase:
-- 
2.43.0


From f9e43297d3bdeee695705d79ba5eb49cd633ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:59 +0000
Subject: [PATCH 64/86] fix: DC OPF without units in service reports failure

---
 pypower/dcopf_solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b9b3f81..7f00c02 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -157,7 +157,8 @@ def dcopf_solver(om, ppopt, out_opt=None):
     fparm_pol = ones((npol, 1)) * array([[1, 0, 0, 1]])
 
     ## combine with user costs
-    NN = vstack([n for n in [Npwl, Npol, N] if n is not None and n.shape[0] > 0], "csr")
+    NN = vstack([n for n in [Npwl, Npol, N] if n is not None and n.shape[0] > 0]
+                or [sparse((0, nxyz))], "csr")
     # FIXME: Zero dimension sparse matrices.
     if (Hpwl is not None) and any_pwl and (npol + nw):
         Hpwl = hstack([Hpwl, sparse((any_pwl, npol + nw))])
@@ -168,13 +169,14 @@ def dcopf_solver(om, ppopt, out_opt=None):
             Hpol = hstack([Hpol, sparse((npol, nw))])
     if (H is not None) and nw and (any_pwl + npol):
         H = hstack([sparse((nw, any_pwl + npol)), H])
-    HHw = vstack([h for h in [Hpwl, Hpol, H] if h is not None and h.shape[0] > 0], "csr")
+    HHw = vstack([h for h in [Hpwl, Hpol, H] if h is not None and h.shape[0] > 0]
+                or [sparse((0, 0))], "csr")
     CCw = r_[Cpwl, Cpol, Cw]
     ffparm = r_[fparm_pwl, fparm_pol, fparm]
 
     ## transform quadratic coefficients for w into coefficients for X
     nnw = any_pwl + npol + nw
-    M = sparse((ffparm[:, 3], (range(nnw), range(nnw))))
+    M = sparse((ffparm[:, 3], (range(nnw), range(nnw))), (nnw, nnw))
     MR = M * ffparm[:, 1]
     HMR = HHw * MR
     MN = M * NN
-- 
2.43.0


From 1140fba501c47d5433a7ea631232eae1b3904544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:11 +0000
Subject: [PATCH 65/86] fix: continuation power flow builds the last row of its
 Jacobian as a single row

---
 pypower/cpf_corrector.py | 4 ++--
 pypower/cpf_predictor.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/cpf_corrector.py b/pypower/cpf_corrector.py
index 9043957..a4d1354 100644
--- a/pypower/cpf_corrector.py
+++ b/pypower/cpf_corrector.py
@@ -4,7 +4,7 @@ full Newton method with selected parameterization scheme.
 
 from numpy import r_, angle, conj, linalg, inf, array, exp
 
-from scipy.sparse import vstack, hstack
+from scipy.sparse import csr_matrix, vstack, hstack
 
 from pypower.ppoption import ppoption
 from pypower.cpf_p import cpf_p
@@ -92,7 +92,7 @@ def cpf_corrector(Ybus, Sbus, V0, ref, pv, pq,
         # augment J with real/imag -Sxfr and z^T
         J = vstack([
             hstack([J, dF_dlam]),
-            hstack([dP_dV, dP_dlam])
+            csr_matrix(r_[dP_dV, dP_dlam].reshape((1, -1)))
         ], format="csr")
 
         # compute update step
diff --git a/pypower/cpf_predictor.py b/pypower/cpf_predictor.py
index ef33a8f..33c01a2 100644
--- a/pypower/cpf_predictor.py
+++ b/pypower/cpf_predictor.py
@@ -3,7 +3,7 @@
 
 from numpy import r_, array, angle, zeros, linalg, exp
 
-from scipy.sparse import hstack, vstack
+from scipy.sparse import csr_matrix, hstack, vstack
 
 from pypower.dSbus_dV import dSbus_dV
 from pypower.cpf_p_jac import cpf_p_jac
@@ -37,7 +37,7 @@ def cpf_predictor(V, lam, Ybus, Sxfr, pv, pq,
     # linear operator for computing the tangent predictor
     J = vstack([
         hstack([J, dF_dlam]),
-        hstack([dP_dV, dP_dlam])
+        csr_matrix(r_[dP_dV, dP_dlam].reshape((1, -1)))
     ], format="csr")
 
     Vaprv = angle(V)
-- 
2.43.0


From 774ae84b5869fbf928b3f710d4c8db77afdcbff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 66/86] fix: continuation power flow between identical cases
 returns its single point

---
 pypower/cpf_callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/cpf_callbacks.py b/pypower/cpf_callbacks.py
index d657669..73efd1f 100644
--- a/pypower/cpf_callbacks.py
+++ b/pypower/cpf_callbacks.py
@@ -62,10 +62,10 @@ def cpf_default_callback(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args,
     elif k == 0:
         # initialize state
         cb_state = {
-            "V_p": V_p,
-            "lam_p": lam_p,
-            "V_c": V_c,
-            "lam_c": lam_c,
+            "V_p": V_p.reshape((-1, 1)),
+            "lam_p": array([lam_p]),
+            "V_c": V_c.reshape((-1, 1)),
+            "lam_c": array([lam_c]),
             "iterations": 0
         }
 
-- 
2.43.0


From bd0eb8a3f06a9a544124fd6e3cf486a8e1900015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 67/86] fix: continuation power flow does not overshoot the
 requested lambda or the end of the curve

---
 pypower/runcpf.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 1e40a94..5a3b0bd 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -180,6 +180,20 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     z[-1] = 1.0
     while continuation:
         cont_steps = cont_steps + 1
+
+        # limit this step if it would overshoot the end of the curve
+        if isinstance(ppopt["CPF_STOP_AT"], str):
+            if ppopt["CPF_STOP_AT"].upper() == "FULL" and \
+                    lam < lamprv and lam - step < 0:
+                step = lam      # modify step-size
+                parameterization = 1    # change to natural parameterization
+                adapt_step = False      # disable step-adaptivity
+        elif lam + step > ppopt["CPF_STOP_AT"]:
+            # will reach desired lambda in this step
+            step = ppopt["CPF_STOP_AT"] - lam   # modify step-size
+            parameterization = 1    # change to natural parameterization
+            adapt_step = False      # disable step-adaptivity
+
         # prediction for next step
         V0, lam0, z = cpf_predictor(V, lam, Ybus, Sxfr, pv, pq, step, z,
                                     Vprv, lamprv, parameterization)
@@ -217,10 +231,6 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                         print(
                             '\nTraced full continuation curve in %d continuation steps\n' % cont_steps)
                     continuation = 0
-                elif lam < lamprv and lam - step < 0:    # next step will overshoot
-                    step = lam      # modify step-size
-                    parameterization = 1    # change to natural parameterization
-                    adapt_step = False      # disable step-adaptivity
 
             else:   # == 'NOSE'
                 if lam < lamprv:    # reached the nose point
@@ -240,11 +250,6 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                     print('\nReached desired lambda %3.2f in %d continuation steps\n' % (
                         ppopt["CPF_STOP_AT"], cont_steps))
                 continuation = 0
-            # will reach desired lambda in next step
-            elif lam + step > ppopt["CPF_STOP_AT"]:
-                step = ppopt["CPF_STOP_AT"] - lam   # modify step-size
-                parameterization = 1    # change to natural parameterization
-                adapt_step = False      # disable step-adaptivity
 
         if adapt_step and continuation:
             pvpq = r_[pv, pq]
-- 
2.43.0


From 865eff70247132faa77adaaf0d12a386fc571b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:48 +0000
Subject: [PATCH 68/86] fix: continuation power flow stops when the base case
 power flow fails

---
 pypower/runcpf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 5a3b0bd..4492390 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -167,7 +167,13 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
         cb_state, _ = callbacks[k](cont_steps, V, lam, V, lam,
                                    cb_data, cb_state, cb_args)
 
-    if linalg.norm(Sxfr) == 0:
+    if not success:     # there is no base case solution to start from
+        if verbose:
+            print('base case power flow did not converge\n')
+
+        continuation = 0
+        i = iterations
+    elif linalg.norm(Sxfr) == 0:
         if verbose:
             print('base case and target case have identical load and generation\n')
 
-- 
2.43.0


From 19b4bbf0d5cfde32d3f857e235a1f5250c00c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:06 +0000
Subject: [PATCH 69/86] fix: total_load counts dispatchable loads and accepts
 zones from any bus column

---
 pypower/total_load.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pypower/total_load.py b/pypower/total_load.py
index 7eb85a3..11772f1 100644
--- a/pypower/total_load.py
+++ b/pypower/total_load.py
@@ -7,7 +7,7 @@
 
 from sys import stderr
 
-from numpy import zeros, ones, array, arange
+from numpy import zeros, ones, array, asarray, arange
 from numpy import flatnonzero as find
 
 from scipy.sparse import csr_matrix as sparse
@@ -80,6 +80,9 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
     elif len(load_zone) == 0:
         load_zone = bus[:, BUS_AREA].astype(int)   ## use areas defined in bus data as zones
 
+    else:
+        load_zone = asarray(load_zone, int)
+
     nz = max(load_zone)    ## number of load zones
 
     ## fixed load at each bus, & initialize dispatchable
@@ -100,11 +103,11 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
 
         ## create map of external bus numbers to bus indices
         i2e = bus[:, BUS_I].astype(int)
-        e2i = zeros(max(i2e) + 1)
+        e2i = zeros(max(i2e) + 1, int)
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
         Pdd = -Cld * gen[:, PMIN]      ## real power
         if want_Q:
             Q = zeros(ng)
-- 
2.43.0


From 840892177c185815ac690ea7bf12d0892f09f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:15 +0000
Subject: [PATCH 70/86] fix: scale_load scales all load buses and dispatchable
 loads

---
 pypower/scale_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 60fa8d2..ab3d86d 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -110,7 +110,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
     else:
         ng = 0
         ld = array([], int)
@@ -118,7 +118,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     if len(load_zone) == 0:
         if len(load) == 1:        ## make a single zone of all load buses
             load_zone = zeros(nb, int)             ## initialize
-            load_zone[bus[:, PD] != 0 or bus[:, QD] != 0] = 1  ## FIXED loads
+            load_zone[(bus[:, PD] != 0) | (bus[:, QD] != 0)] = 1  ## FIXED loads
             if len(gen) > 0:
                 gbus = gen[ld, GEN_BUS].astype(int)
                 load_zone[e2i[gbus]] = 1    ## DISPATCHABLE loads
-- 
2.43.0


From 846267534abf30f765f40799838a787a719c4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 71/86] fix: scale_load accepts scalar and integer loads and
 leaves the given options alone

---
 pypower/scale_load.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index ab3d86d..ddb6692 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -7,7 +7,7 @@
 
 from sys import stderr
 
-from numpy import array, zeros, arange, in1d, ix_
+from numpy import array, asarray, zeros, arange, in1d, ix_
 from numpy import flatnonzero as find
 
 from scipy.sparse import csr_matrix as sparse
@@ -77,8 +77,9 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         gen = gen.copy()
     if load_zone is None:
         load_zone = array([], int)
-    if opt is None:
-        opt = {}
+    opt = {} if opt is None else dict(opt)
+    load = array(load, float).reshape(-1)
+    load_zone = asarray(load_zone)
 
     ## fill out and check opt
     if len(gen) == 0:
-- 
2.43.0


From 5fc57f5e12eed7524714eced88a2ae03f93fb846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:32 +0000
Subject: [PATCH 72/86] fix: RETURN_RAW_DER returns the constraint Jacobian as
 one matrix

---
 pypower/opf_execute.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index edf88c4..da2129e 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -9,6 +9,8 @@ from sys import stdout
 
 from numpy import array, arange, pi, zeros, r_
 
+from scipy.sparse import vstack
+
 from pypower.ppver import ppver
 from pypower.dcopf_solver import dcopf_solver
 from pypower.pipsopf_solver import pipsopf_solver
@@ -117,7 +119,8 @@ def opf_execute(om, ppopt):
                     Ybus, Yf, Yt = makeYbus(ppc['baseMVA'], ppc['bus'], ppc['branch'])
                     g, geq, dg, dgeq = opf_consfcn(results['x'], om, Ybus, Yf, Yt, ppopt)
                     raw['g'] = r_[geq, g]
-                    raw['dg'] = r_[dgeq.T, dg.T]   ## true Jacobian organization
+                    raw['dg'] = vstack([d.T for d in (dgeq, dg) if d is not None],
+                                       'csr')       ## true Jacobian organization
 
                 ## compute df, d2f
                 _, df, d2f = opf_costfcn(results['x'], om, True)
-- 
2.43.0


From a0792f27c34aa54fa399ae8489ea2f67472e6fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:45 +0000
Subject: [PATCH 73/86] fix: DC OPF reports a missing external solver

---
 pypower/dcopf_solver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 7f00c02..e396071 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -184,6 +184,15 @@ def dcopf_solver(om, ppopt, out_opt=None):
     CC = MN.T * (CCw - HMR)
     C0 = 0.5 * dot(MR, HMR) - dot(CCw, MR) + sum(polycf[:, 2])  # Constant term of cost.
 
+    ## check that the external solver asked for is available
+    packages = {400: 'pyipopt', 500: 'cplex', 600: 'pymosek', 700: 'gurobipy'}
+    if alg in packages:
+        try:
+            __import__(packages[alg])
+        except ImportError:
+            raise ImportError('OPF_ALG_DC %d requires the %s package' %
+                              (alg, packages[alg]))
+
     ## set up input for QP solver
     opt = {'alg': alg, 'verbose': verbose}
     if (alg == 200) or (alg == 250):
-- 
2.43.0


From 443dce194b589e4cabfff0753185a5164517fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:34 +0000
Subject: [PATCH 74/86] fix: printpf prints the summary of a case without
 branches

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 2155c60..fc4bbfe 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -216,7 +216,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
         maxv = max(bus[:, VA])
         maxi = argmax(bus[:, VA])
         fd.write('\nVoltage Angle   %8.2f deg   @ bus %-4d   %8.2f deg   @ bus %-4d' % (minv, bus[mini, BUS_I], maxv, bus[maxi, BUS_I]))
-        if not isDC:
+        if not isDC and nl > 0:
             maxv = max(loss.real)
             maxi = argmax(loss.real)
             fd.write('\nP Losses (I^2*R)             -              %8.2f MW    @ line %d-%d' % (maxv, branch[maxi, F_BUS], branch[maxi, T_BUS]))
-- 
2.43.0


From 58bac66e19e366d92b56dcb0224e29bed38caf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:46 +0000
Subject: [PATCH 75/86] fix: continuation power flow without any effect on the
 power flow equations ends

---
 pypower/runcpf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 4492390..eb57f51 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -180,6 +180,14 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
         continuation = 0
         V0 = V
         lam0 = lam
+    elif isinstance(ppopt["CPF_STOP_AT"], str) and \
+            linalg.norm(r_[Sxfr[r_[pv, pq]].real, Sxfr[pq].imag]) == 0:
+        if verbose:
+            print('transfer does not affect the power flow equations, no loading limit\n')
+
+        continuation = 0
+        V0 = V
+        lam0 = lam
 
     # tangent predictor z = [dx;dlam]
     z = zeros(2*len(V)+1)
-- 
2.43.0


From 4e9329426056fff50063a5b91534378e6bd78799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:05 +0000
Subject: [PATCH 76/86] fix: runopf keeps its results when the report file
 cannot be opened

---
 pypower/runopf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/runopf.py b/pypower/runopf.py
index 3cd2167..6c702c9 100644
--- a/pypower/runopf.py
+++ b/pypower/runopf.py
@@ -35,7 +35,7 @@ def runopf(casedata=None, ppopt=None, fname='', solvedcase=''):
         fd = None
         try:
             fd = open(fname, "a")
-        except IOError as detail:
+        except Exception as detail:
             stderr.write("Error opening %s: %s.\n" % (fname, detail))
         finally:
             if fd is not None:
-- 
2.43.0


From dc66d759f0ffeab0cc9561bcd53d84d1f0b1cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:20 +0000
Subject: [PATCH 77/86] fix: command line accepts options with string values

---
 pypower/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/main.py b/pypower/main.py
index b4c5252..cc31fa6 100644
--- a/pypower/main.py
+++ b/pypower/main.py
@@ -36,7 +36,7 @@ CASES = {'case4gs': case4gs, 'case6ww': case6ww, 'case9': case9,
 
 
 def option_callback(option, opt, value, parser, *args, **kw_args):
-    if isinstance(value, str):
+    if option.type == 'choice':
         if value in AFFIRMATIVE:
             value = True
         elif value in NEGATIVE:
@@ -44,7 +44,7 @@ def option_callback(option, opt, value, parser, *args, **kw_args):
         else:
             choices = ", ".join(map(repr, option.choices))
             raise OptionValueError(
-                _("option %s: invalid choice: %r (choose from %s)")
+                "option %s: invalid choice: %r (choose from %s)"
                 % (opt, value, choices))
 
     opt_name = opt[2:].upper()
-- 
2.43.0


From 4b96c32d68897e15f9da939d95d5cd13e3da1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:35 +0000
Subject: [PATCH 78/86] fix: command line accepts a fractional PDIPM_FEASTOL

---
 pypower/ppoption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/ppoption.py b/pypower/ppoption.py
index cb9ff87..5e799d4 100644
--- a/pypower/ppoption.py
+++ b/pypower/ppoption.py
@@ -160,7 +160,7 @@ in results['raw'] (in keys g, dg, df, d2f))''')
 ]
 
 PDIPM_OPTIONS = [
-    ('pdipm_feastol', 0, '''feasibility (equality) tolerance
+    ('pdipm_feastol', 0.0, '''feasibility (equality) tolerance
 for Primal-Dual Interior Points Methods, set
 to value of OPF_VIOLATION by default'''),
     ('pdipm_gradtol', 1e-6, '''gradient tolerance for
-- 
2.43.0


From c0495b8a603311b0724651ac6daf2dfeaa43f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:48 +0000
Subject: [PATCH 79/86] fix: user constraints with an empty lower bound are not
 dropped

---
 pypower/opf_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 33c9475..4a1522b 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -349,7 +349,7 @@ def opf_args2(*args):
 
     if areas is not None and len(areas) > 0:
         ppc["areas"] = areas
-    if lbu is not None and len(lbu) > 0:
+    if Au is not None and Au.shape[0] > 0:   ## either bound may be empty
         ppc["A"], ppc["l"], ppc["u"] = Au, lbu, ubu
     if Cw is not None and len(Cw) > 0:
         ppc["N"], ppc["Cw"] = N, Cw
-- 
2.43.0


From 0b52e6fb0c232dcb9217b35306bc905c1fe60cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:01 +0000
Subject: [PATCH 80/86] fix: objective includes user costs of variables out of
 service

---
 pypower/opf_costfcn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index 527db0f..1359965 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -73,7 +73,7 @@ def opf_costfcn(x, om, return_hessian=False):
         ccost = zeros(nxyz)
 
     ## generalized cost term
-    if issparse(N) and N.nnz > 0:
+    if issparse(N) and N.shape[0] > 0:
         nw = N.shape[0]
         r = N * x - rh                   ## Nx - rhat
         iLT = find(r < -kk)              ## below dead zone
@@ -111,7 +111,7 @@ def opf_costfcn(x, om, return_hessian=False):
     df = df + ccost  # The linear cost row is additive wrt any nonlinear cost.
 
     ## generalized cost term
-    if issparse(N) and N.nnz > 0:
+    if issparse(N) and N.shape[0] > 0:
         HwC = H * w + Cw
         AA = N.T * M * (LL + 2 * QQ * diagrr)
         df = df + AA * HwC
-- 
2.43.0


From c433acd0589421e8d7905c69f60f7e8ef22f3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:14 +0000
Subject: [PATCH 81/86] fix: DC OPF refuses user costs it cannot handle

---
 pypower/dcopf_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index e396071..af4e638 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -94,6 +94,9 @@ def dcopf_solver(om, ppopt, out_opt=None):
     cp = om.get_cost_params()
     N, H, Cw = cp["N"], cp["H"], cp["Cw"]
     fparm = array(c_[cp["dd"], cp["rh"], cp["kk"], cp["mm"]])
+    if any(cp["dd"] != 1) or any(cp["kk"] != 0):
+        raise ValueError('DC opf can only handle user costs with d = 1 '
+                         '(linear) and h = 0 (no dead zone).')
     Bf = om.userdata('Bf')
     Pfinj = om.userdata('Pfinj')
     vv, ll, _, _ = om.get_idx()
-- 
2.43.0


From 8add703bf6277c77419fe3aad0dd0f8990d69fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:38 +0000
Subject: [PATCH 82/86] fix: power flow of a case with reserves or interface
 limits

---
 pypower/toggle_iflims.py   | 31 ++++++++++++++++++++-----------
 pypower/toggle_reserves.py | 13 +++++++++++--
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 39f9019..b7e31f3 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -165,6 +165,9 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
+    if results['branch'].shape[1] <= PF:    ## no solved branch flows
+        return results
+
     ifidx = iflims[:, 0]           ## interface number list
     nifs = len(ifidx)           ## number of interfaces
     results['if']['P'] = zeros(nifs)
@@ -174,10 +177,11 @@ def userfcn_iflims_int2ext(results, *args):
         d = ifmap[ifmap[:, 0] == ifidx[k], 2]
         results['if']['P'][k] = sum( d * results['branch'][br, PF] )
 
-    if 'mu' not in results['if']:
-        results['if']['mu'] = {}
-    results['if']['mu']['l'] = results['lin']['mu']['l']['iflims']
-    results['if']['mu']['u'] = results['lin']['mu']['u']['iflims']
+    if 'lin' in results:            ## results of an OPF
+        if 'mu' not in results['if']:
+            results['if']['mu'] = {}
+        results['if']['mu']['l'] = results['lin']['mu']['l']['iflims']
+        results['if']['mu']['u'] = results['lin']['mu']['u']['iflims']
 
     return results
 
@@ -202,16 +206,20 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         fd.write('\n----------  ----------  ----------  ----------  ----------  -----------')
         ifidx = iflims[:, 0]           ## interface number list
         nifs = len(ifidx)           ## number of interfaces
+        if 'lin' in results:        ## results of an OPF
+            mu = results['if']['mu']
+        else:
+            mu = {'l': zeros(nifs), 'u': zeros(nifs)}
         for k in range(nifs):
             fd.write('\n%6d ' % ifidx[k])
-            if results['if']['mu']['l'][k] > ptol:
-                fd.write('%14.3f' % results['if']['mu']['l'][k])
+            if mu['l'][k] > ptol:
+                fd.write('%14.3f' % mu['l'][k])
             else:
                 fd.write('          -   ')
 
             fd.write('%12.2f%12.2f%12.2f' % (iflims[k, 1], results['if']['P'][k], iflims[k, 2]))
-            if results['if']['mu']['u'][k] > ptol:
-                fd.write('%13.3f' % results['if']['mu']['u'][k])
+            if mu['u'][k] > ptol:
+                fd.write('%13.3f' % mu['u'][k])
             else:
                 fd.write('         -     ')
 
@@ -244,8 +252,9 @@ def userfcn_iflims_savecase(ppc, fd, prefix, *args):
     if ('P' in ppc['if']):
         fd.write('\n    #### solved values\n')
         fd.write("    %s['if']['P'] = array(%s)\n" % (prefix, ppc['if']['P'].tolist()))
-        fd.write("    %s['if']['mu'] = {}\n" % prefix)
-        fd.write("    %s['if']['mu']['l'] = array(%s)\n" % (prefix, ppc['if']['mu']['l'].tolist()))
-        fd.write("    %s['if']['mu']['u'] = array(%s)\n" % (prefix, ppc['if']['mu']['u'].tolist()))
+        if 'mu' in ppc['if']:
+            fd.write("    %s['if']['mu'] = {}\n" % prefix)
+            fd.write("    %s['if']['mu']['l'] = array(%s)\n" % (prefix, ppc['if']['mu']['l'].tolist()))
+            fd.write("    %s['if']['mu']['u'] = array(%s)\n" % (prefix, ppc['if']['mu']['u'].tolist()))
 
     return ppc
diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 1a36457..9419b22 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -231,6 +231,9 @@ def userfcn_reserves_int2ext(results, *args):
     igr0 = r['igr']               ## indices of gens available to provide reserves
     ng0  = o['ext']['gen'].shape[0]  ## number of gens (+ disp loads)
 
+    if 'om' not in results:         ## not the results of an OPF
+        return restore_original(results)
+
     ##-----  results post-processing  -----
     ## get the results (per gen reserves, multipliers) with internal gen indexing
     ## and convert from p.u. to per MW units
@@ -265,7 +268,13 @@ def userfcn_reserves_int2ext(results, *args):
 
     results['reserves']['totalcost'] = results['cost']['Rcost']
 
-    ## replace ng x 1 cost, qty with ngr x 1 originals
+    return restore_original(results)
+
+
+def restore_original(results):
+    """Replaces ng x 1 cost, qty with ngr x 1 originals.
+    """
+    r = results['reserves']
     if 'original' in r:
         if 'qty' in r:
             results['reserves']['qty'] = r['original']['qty']
@@ -284,7 +293,7 @@ def userfcn_reserves_printpf(results, fd, ppopt, *args):
     r = results['reserves']
     nrz = r['req'].shape[0]
     OUT_ALL = ppopt['OUT_ALL']
-    if OUT_ALL != 0:
+    if OUT_ALL != 0 and 'om' in results:    ## only for the results of an OPF
         fd.write('\n================================================================================')
         fd.write('\n|     Reserves                                                                 |')
         fd.write('\n================================================================================')
-- 
2.43.0


From 81facfc6a94689f0ecf60acb2e863549e8b3a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:47 +0000
Subject: [PATCH 83/86] fix: power flow drops the results of an earlier OPF

---
 pypower/runcpf.py | 5 +++++
 pypower/runpf.py  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index eb57f51..4c06649 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -85,6 +85,11 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     # read target case data
     ppctarget = loadcase(targetcasedata)
 
+    # results of an earlier OPF do not belong to this solution
+    for k in ('om', 'x', 'mu', 'f', 'var', 'lin', 'nln', 'cost', 'raw'):
+        ppcbase.pop(k, None)
+        ppctarget.pop(k, None)
+
     # add zero columns to branch for flows if needed
     if ppctarget["branch"].shape[1] < QT:
         ppctarget["branch"] = c_[ppctarget["branch"],
diff --git a/pypower/runpf.py b/pypower/runpf.py
index fca129f..d939576 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -84,6 +84,10 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
     ## read data
     ppc = loadcase(casedata)
 
+    ## results of an earlier OPF do not belong to this solution
+    for k in ('om', 'x', 'mu', 'f', 'var', 'lin', 'nln', 'cost', 'raw'):
+        ppc.pop(k, None)
+
     ## add zero columns to branch for flows if needed
     if ppc["branch"].shape[1] < QT:
         ppc["branch"] = c_[ppc["branch"],
-- 
2.43.0


From 08142358d00bbef319dc2534a4df980ec64b5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:59 +0000
Subject: [PATCH 84/86] fix: printpf counts no losses of branches at isolated
 buses

---
 pypower/printpf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index fc4bbfe..002a817 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -14,7 +14,7 @@ from numpy import \
 from numpy import flatnonzero as find
 
 from pypower.idx_bus import BUS_I, BUS_TYPE, PD, QD, GS, BS, BUS_AREA, \
-    VM, VA, VMAX, VMIN, LAM_P, LAM_Q, MU_VMAX, MU_VMIN, REF
+    VM, VA, VMAX, VMIN, LAM_P, LAM_Q, MU_VMAX, MU_VMIN, REF, NONE
 from pypower.idx_gen import GEN_BUS, PG, QG, QMAX, QMIN, GEN_STATUS, \
     PMAX, PMIN, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN
 from pypower.idx_brch import F_BUS, T_BUS, BR_R, BR_X, BR_B, RATE_A, \
@@ -158,7 +158,9 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ong  = find( (gen[:, GEN_STATUS] > 0) & ~isload(gen) )
     onld = find( (gen[:, GEN_STATUS] > 0) &  isload(gen) )
     V = bus[:, VM] * exp(-1j * pi / 180 * bus[:, VA])
-    out = find(branch[:, BR_STATUS] == 0)        ## out-of-service branches
+    out = find((branch[:, BR_STATUS] == 0) |     ## out-of-service branches
+               (bus[e2i[branch[:, F_BUS].astype(int)], BUS_TYPE] == NONE) |
+               (bus[e2i[branch[:, T_BUS].astype(int)], BUS_TYPE] == NONE))
     nout = len(out)
     if isDC:
         loss = zeros(nl)
-- 
2.43.0


From b2f8e17df9cc3d93c43f8ed37190b8ecda13e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:23 +0000
Subject: [PATCH 85/86] fix: reactive output of units without reactive power
 limits

---
 pypower/pfsoln.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pypower/pfsoln.py b/pypower/pfsoln.py
index 5ffd047..f9e6de7 100644
--- a/pypower/pfsoln.py
+++ b/pypower/pfsoln.py
@@ -5,7 +5,8 @@
 """Updates bus, gen, branch data structures to match power flow soln.
 """
 
-from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_
+from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_, \
+    where, isinf, copysign
 from numpy import flatnonzero as find
 
 from scipy.sparse import csr_matrix
@@ -58,9 +59,17 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ngg = asarray(ngg).flatten()  # 1D array
         gen[on, QG] = gen[on, QG] / ngg
 
+        ## replace infinite limits by proxies large enough for the bus
+        Qmin, Qmax = gen[on, QMIN].copy(), gen[on, QMAX].copy()
+        M = abs(gen[on, QG]) + where(isinf(Qmin), 0, abs(Qmin)) + \
+            where(isinf(Qmax), 0, abs(Qmax))
+        M = Cg * (Cg.T * M)      ## sum over all gens at this gen's bus
+        Qmin = where(isinf(Qmin), copysign(M, Qmin), Qmin)
+        Qmax = where(isinf(Qmax), copysign(M, Qmax), Qmax)
+
         ## divide proportionally
-        Cmin = csr_matrix((gen[on, QMIN], (range(ngon), gbus)), (ngon, nb))
-        Cmax = csr_matrix((gen[on, QMAX], (range(ngon), gbus)), (ngon, nb))
+        Cmin = csr_matrix((Qmin, (range(ngon), gbus)), (ngon, nb))
+        Cmax = csr_matrix((Qmax, (range(ngon), gbus)), (ngon, nb))
         Qg_tot = Cg.T * gen[on, QG]## nb x 1 vector of total Qg at each bus
         Qg_min = Cmin.sum(0).T       ## nb x 1 vector of min total Qg at each bus
         Qg_max = Cmax.sum(0).T       ## nb x 1 vector of max total Qg at each bus
@@ -69,9 +78,9 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ## gens at buses with Qg range = 0
         ig = find(Cg * Qg_min == Cg * Qg_max)
         Qg_save = gen[on[ig], QG]
-        gen[on, QG] = gen[on, QMIN] + \
+        gen[on, QG] = Qmin + \
             (Cg * ((Qg_tot - Qg_min) / (Qg_max - Qg_min + EPS))) * \
-                (gen[on, QMAX] - gen[on, QMIN])    ##    ^ avoid div by 0
+                (Qmax - Qmin)                      ##    ^ avoid div by 0
         gen[on[ig], QG] = Qg_save  ## (terms are mult by 0 anyway)
 
     ## update Pg for slack bus(es)
-- 
2.43.0


From cf03b6996727979c5eba3b258463a00cd29a64e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:06 +0000
Subject: [PATCH 86/86] fix: power flow of an unreadable case fails as before

---
 pypower/runcpf.py | 10 +++++-----
 pypower/runpf.py  |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 4c06649..24aa2b8 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -85,17 +85,17 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     # read target case data
     ppctarget = loadcase(targetcasedata)
 
-    # results of an earlier OPF do not belong to this solution
-    for k in ('om', 'x', 'mu', 'f', 'var', 'lin', 'nln', 'cost', 'raw'):
-        ppcbase.pop(k, None)
-        ppctarget.pop(k, None)
-
     # add zero columns to branch for flows if needed
     if ppctarget["branch"].shape[1] < QT:
         ppctarget["branch"] = c_[ppctarget["branch"],
                                  zeros((ppctarget["branch"].shape[0],
                                         QT - ppctarget["branch"].shape[1] + 1))]
 
+    # results of an earlier OPF do not belong to this solution
+    for k in ('om', 'x', 'mu', 'f', 'var', 'lin', 'nln', 'cost', 'raw'):
+        ppcbase.pop(k, None)
+        ppctarget.pop(k, None)
+
     # convert to internal indexing
     ppctarget = ext2int(ppctarget)
     baseMVAt, bust, gent, brancht = \
diff --git a/pypower/runpf.py b/pypower/runpf.py
index d939576..8a16c45 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -84,16 +84,16 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
     ## read data
     ppc = loadcase(casedata)
 
-    ## results of an earlier OPF do not belong to this solution
-    for k in ('om', 'x', 'mu', 'f', 'var', 'lin', 'nln', 'cost', 'raw'):
-        ppc.pop(k, None)
-
     ## add zero columns to branch for flows if needed
     if ppc["branch"].shape[1] < QT:
         ppc["branch"] = c_[ppc["branch"],
                            zeros((ppc["branch"].shape[0],
                                   QT - ppc["branch"].shape[1] + 1))]
 
+    ## results of an earlier OPF do not belong to this solution
+    for k in ('om', 'x', 'mu', 'f', 'var', 'lin', 'nln', 'cost', 'raw'):
+        ppc.pop(k, None)
+
     ## convert to internal indexing
     ppc = ext2int(ppc)
     baseMVA, bus, gen, branch = \
-- 
2.43.0

