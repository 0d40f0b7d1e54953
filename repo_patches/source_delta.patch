From 456931c8a31acaf61528977f0270bfc4c2de5464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 01/22] fix: multinomial computed exactly, int64 sums and
 products overflowed

---
 phenum/numerics.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/phenum/numerics.py b/phenum/numerics.py
index 4a2575d..a3482d0 100755
--- a/phenum/numerics.py
+++ b/phenum/numerics.py
@@ -1,6 +1,5 @@
 """Numerical methods for mathematical functions neede for the program"""
 
-import numpy as np
 #This method finds the factorial of a given number(num).
 #The method calls for an integer input num
 #The method returns the factorial(represented as fact in the method)
@@ -59,13 +58,16 @@ def multinomial(n):
     Args:
         n (list): the interegs to be used.
     """
-    binomials = [[np.sum(n),n[0]]]
+    # Python integers are used throughout since the coefficients quickly
+    # exceed what fits into numpy's fixed width integers.
+    n = [int(ni) for ni in n]
+    binomials = [[sum(n),n[0]]]
     for i in range(1,len(n)):
         new_sum = binomials[i-1][0]-binomials[i-1][1]
         binomials.append([new_sum,n[i]])
         
-    bins = []
+    result = 1
     for b in binomials:
-        bins.append(binomial_coefficient(b[0],b[1]))
+        result *= binomial_coefficient(b[0],b[1])
     
-    return np.prod(bins)
+    return result
-- 
2.43.0


From 2081ae09be27ab8490d80ffa459f2a328a566d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 02/22] fix: Polya counts use exact integer division, floats
 lost digits past 2**53

---
 phenum/polyaburnside.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index f429848..bd5a566 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -287,7 +287,7 @@ class Multinomial(object):
         Returns:
             norm_seq (list): The normalized lust of exponents.
         """
-        return [int(ai/self.power) for ai in seq]
+        return [ai//self.power for ai in seq]
 
     def nchoosekm(self, sequence):
         """Returns the number of different ways to partition an n-element
@@ -339,10 +339,10 @@ class Multinomial(object):
         t = 1
         if k < n-k:
             for i in range(n, n-k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
         else:
             for i in range(n, k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
 
         return t
 
@@ -544,4 +544,4 @@ def polya(concentrations, group, arrowings=None, debug=False):
         pp += p.coeff()
         
     rad = sum([p.coeff() for p in list(polyndict.values())])
-    return int(rad/float(len(group)))
+    return int(rad)//len(group)
-- 
2.43.0


From ab050139e1b1f17154a3290ef5d851f0769f6228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 03/22] fix: real space mapping uses exact integer limits,
 rounding lost basis atoms

---
 phenum/vector_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index fc7d88d..bfc40a0 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -100,8 +100,8 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
     for iD in range(0, n_d):  
         # For the limits on the loops, see the "interior_points.pdf" write-up
         for z1 in range(a):
-            for z2 in range(int((b*z1)/a), int(c+(b*z1)/a)):
-                for z3 in range(int(z1*(d-(e*b)/c)/a+(e*z2)/c), int(f+z1*(d-(e*b)/c)/a+(e*z2)/c)):
+            for z2 in range((b*z1)//a, c+(b*z1)//a):
+                for z3 in range((z1*(d*c-e*b)+a*e*z2)//(a*c), f+(z1*(d*c-e*b)+a*e*z2)//(a*c)):
                     ic +=1
                     # if ic > n: #pragma: no cover
                     #     from .msg import err
-- 
2.43.0


From 3e75cfcc7fe679757a2c77e4e3a66314dc37d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 04/22] fix: super periodic configurations no longer prune the
 branches above them

---
 phenum/tree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index f393d1b..4ea84ae 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -391,6 +391,9 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
         # stabilizers for the arrow configurations
         (unique,stabalizer[i+1],order,ast) = _perm(branch,concs,n,i,group,stabalizer[i],order,ast)
 
+        # a super periodic configuration isn't saved but the branches
+        # above it still have to be visited.
+        superperiodic = False
         if not supers and narrows == 0:
             from operator import mul
             # if we have a unique structure then we need to check if
@@ -403,7 +406,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                     for act in action:
                         trans_branch.append(brancht[act])
                     if trans_branch == brancht and action != list(range(int(cellsize))):
-                        unique = 1
+                        superperiodic = True
                         if use_subset:
                             if count in subset:
                                 loc = subset.index(count)
@@ -420,7 +423,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
             # if we've visited every level of the tree
             # then we need to append the unique
             # configurations
-            if b0 == 1 or i == 0:
+            if (b0 == 1 or i == 0) and not superperiodic:
                 # if there are arrows we need to see
                 # what their unique arrangements are
                 # before saving the configurations
-- 
2.43.0


From 63d6226618e0ea48ca5d9f34324dcdee60dbf91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 05/22] fix: randomly picked arrangements are checked against
 the ones already picked

---
 phenum/phonons.py | 24 ++++++++++++++----------
 phenum/tree.py    | 14 +++++++++-----
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 028a557..fff70f3 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -221,10 +221,10 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
     else:
         from random import randrange
         visited = []
-        orighash = randrange(maxpossible)
-        while len(arsurvivors) < num_wanted:
+        orighash = randrange(maxpossible+1)
+        while len(arsurvivors) < num_wanted and len(visited) <= maxpossible:
             while orighash in visited:
-                orighash = randrange(maxpossible)
+                orighash = randrange(maxpossible+1)
 
             visited.append(orighash)
             
@@ -285,13 +285,17 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        orig_sites = [i[1] for i in coloring_with_arrows]
-                        perm_sites = [orig_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in arrow_config
-                                         if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and action != list(range(len(action))) and permutation != list(range(len(permutation))): #pragma: no cover
-                            #This happens rarely and so it's really hard to access in tests.
-                            unique == False
+                        if action != list(range(len(action))) or (permutation != list(range(len(permutation)))):
+                            orig_sites = [i[1] for i in coloring_with_arrows]
+                            arrow_sites = [i[0] for i in coloring_with_arrows]
+                            perm_sites = [orig_sites[i] for i in action]
+                            rot_arrows = [arrow_sites[i] for i in action]
+                            perm_arrows = [permutation[site] for site in rot_arrows
+                                           if site >= 0]
+                            if orig_sites == perm_sites and perm_arrows == arrow_config: #pragma: no cover
+                                #This happens rarely and so it's really hard to access in tests.
+                                unique = False
+                                break
 
                 if unique == True:
                     arsurvivors.append(coloring_with_arrows)
diff --git a/phenum/tree.py b/phenum/tree.py
index 4ea84ae..756ee1f 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -597,6 +597,7 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
 
     survivors = []
     visited = []
+    visited_configs = []
 
     nfound = 0
     while len(survivors) < num_wanted:
@@ -623,13 +624,13 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 new_config.append(config[j])
             new_config = list(new_config)
 
-            new_location = _hash(new_config)
-
-            if new_location in visited and new_location != candidate: #pragma: no cover
+            if new_config in visited_configs: #pragma: no cover
                 #This happens rarely and so it's really hard to access in tests.
                 unique = False
                 break
-	    
+
+        visited_configs.append(config)
+
         # if there are no arrows and we don't want to store
         # superperiodic structures then we need to see if any
         # translations operations are stabilizers of the
@@ -653,7 +654,10 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 for con, t_con in enumerate(t_config):
                     t_config[con] = deepcopy(colors[t_con -1])
 
-                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted, supers = supers, small = True)
+                # only the operations that don't change the colors can
+                # make two arrow arrangements equivalent.
+                stab = [op for op in group if [config[j] for j in op[0]] == config]
+                arsurvivors = add_arrows(t_config, stab, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted - len(survivors), supers = supers, small = True)
 
                 for survivor in arsurvivors:
                     survivors.append(survivor)
-- 
2.43.0


From 3725a27b208e6e6c1a780d4f2e2f35a03004988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 06/22] fix: lattices whose rotations mix the arrow directions
 can be used without arrows

---
 phenum/enumeration.py | 5 ++++-
 phenum/grouptheory.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4b73320..8b7cdac 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -83,7 +83,10 @@ def _polya_out(args):
         for thnf in hnfs:
             hnf = [thnf[0][0],thnf[1][0],thnf[1][1],thnf[2][0],thnf[2][1],thnf[2][2]]
             out.write("  {0: <26}".format(' '.join(map(str, hnf))))
-            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3)
+            # the arrow group only exists for lattices whose rotations
+            # permute the arrow directions, so only ask for it if needed.
+            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3,
+                                  arrows=sum(a_concs) != 0)
             agroup = []
             len_sym_g = len(sym_g.perm.site_perm)
             for i in range(len_sym_g):
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 0367b06..8a80581 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -603,7 +603,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                         
                 # do the same thing for the arrows
                 skip = [False]*na_op
-                for im in range(na_op):
+                for im in range(na_op if arrows else 0):
                     for jm in range(na_op):
                         if skip[jm]:
                             continue
@@ -612,7 +612,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                             skip[jm] = True
                             break
 
-                if np.count_nonzero(dgp == 0) > 1 or np.count_nonzero(dap == 0) > 1: #pragma: no cover
+                if np.count_nonzero(dgp == 0) > 1 or (arrows and np.count_nonzero(dap == 0) > 1): #pragma: no cover
                     print("(d,g)-->(d',g') mapping failed in get_rotation_perm_lists")
                     exit()
 
@@ -620,7 +620,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
             # record the permutation
             # permutation in the "long form"
             temp_rperms_perm.append(np.transpose(dgp).reshape(n_d*n).tolist()) # store
-            temp_arrow_perm.append(dap)
+            temp_arrow_perm.append([int(i) for i in dap])
 
         # nomenclature:
         # N+t = rotation (N) + fractional translation (t)  (me bethinks....)
-- 
2.43.0


From 57619e4edee580012e88b374062f4c3de9c9a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 07/22] fix: basis permutations belong to the rotations they
 are paired with

---
 phenum/grouptheory.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 8a80581..9672099 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -408,6 +408,31 @@ def SmithNormalForm(HNF):
         
     return(M,A,B)
 
+def _transpose_operations(rot,shift):
+    """Puts the operations of a space group in the order of the transposes
+    (i.e. the inverses) of their rotations. The rotations act on column
+    vectors, so multiplying a vector with the i-th rotation from the right
+    applies the i-th of the reordered operations to it.
+
+    Args:
+        rot (array-like): A 3D array containing the rotations.
+        shift (array-like): A 2D array containing the translations.
+
+    Returns:
+        (t_rot, t_shift): The reordered rotations and translations.
+    """
+    t_rot = []
+    t_shift = []
+    used = [False]*len(rot)
+    for r in rot:
+        for j, rj in enumerate(rot):
+            if not used[j] and np.allclose(np.transpose(r),rj):
+                used[j] = True
+                t_rot.append(rj)
+                t_shift.append(shift[j])
+                break
+    return (t_rot,t_shift)
+
 def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
     """This routine applies the symmetry operations of the parent lattice
     to the interior points (i.e., the d-set) to see which ones are
@@ -438,6 +463,9 @@ def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
     if LatDim==2:
         (rot,shift) = _rm_3D_operations(par_lat,rot,shift,eps)
 
+    # the d-vectors are multiplied with the rotations from the right below
+    shift = _transpose_operations(rot,shift)[1]
+
     n_op = len(rot)
     inv_par_lat = np.linalg.inv(np.transpose(par_lat))
     nl_temp= n_op  # Number of operations that fix the parent
@@ -749,6 +777,7 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     a_type = [1]*len(bas_vecs)
     
     (sgrots,sgshifts) = get_spaceGroup(par_lat,a_type,bas_vecs,eps)
+    (sgrots,sgshifts) = _transpose_operations(sgrots,sgshifts)
     (fixing_ops,RPList,degeneracy) = _get_sLV_fixing_operations(HNF,par_lat,sgrots,sgshifts,
                                                                 par_rp_list,eps)
 
-- 
2.43.0


From 0e8bc76807c14f4e491fc3bd1a1616240975c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 08/22] fix: operations equal up to a translation are listed
 only once

---
 phenum/grouptheory.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 9672099..f44d563 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -706,6 +706,17 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 temp_ident.append([ident[il][i] for i in perm])
             tperms_perm.append(np.reshape(temp_ident,(n*n_d)).tolist())
             
+        if not arrows:
+            # Two operations can have the same effect up to a lattice
+            # translation, only one of them is needed.
+            first_rperms = []
+            composed = set()
+            for rperm in temp_rperms_perm:
+                if tuple(rperm) not in composed:
+                    first_rperms.append(rperm)
+                    composed.update(tuple([tperm[i] for i in rperm]) for tperm in tperms_perm)
+            temp_rperms_perm = first_rperms
+
         rp_list_nl = len(temp_rperms_perm)*n
         rp_list_perm_sites = [0]*rp_list_nl
         rp_list_perm_arrows = [0]*rp_list_nl
-- 
2.43.0


From a273a8b00d709baa3ddf57317b62f1493fb72a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 09/22] fix: matrix columns in enum.out stay apart for entries
 with three or more digits

---
 phenum/enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 8b7cdac..f76f429 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -175,7 +175,7 @@ def _enum_out(args):
             "{8: >10}  {9: >18}  {10: >44}    {11}    {12: >21}\n")
     def fmtn(l, n):
         l = [int(i) for i in l]
-        return (''.join(["{{{0:d}: >{1:d}d}}".format(i, n) for i in range(len(l))])).format(*l)
+        return (''.join([" {{{0:d}: >{1:d}d}}".format(i, n-1) for i in range(len(l))])).format(*l)
     
     with open(args["outfile"], 'a') as f:
         enumlist = []    
-- 
2.43.0


From eaaf19aefc79c582b684735464ec28903972b7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 10/22] fix: displaced atoms move along the direction recorded
 for their own site

---
 phenum/io_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0629068..c676240 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -337,7 +337,8 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         args (dict): Dictionary of user supplied input.
     """
 
-    from numpy import array
+    from numpy import array, matmul
+    from numpy.linalg import inv
     from phenum.element_data import get_lattice_parameter
     from random import uniform
     from itertools import product
@@ -351,7 +352,8 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     g_indx = space_data["gIndx"]
     arrows = structure_data["directions"]
 
-    arrow_directions = [[0,0,0],[0,0,-1],[0,-1,0],[-1,0,0],[1,0,0],[0,1,0],[0,0,1]]
+    # Label 0 is no arrow, the others are in the order of the arrow group.
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     concs = [0]*system_data["k"]
@@ -390,7 +392,8 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[iAt]*args["displace"]*lattice_parameter
+            displace = directions[g_indx[iAt]]*args["displace"]
+            displace = matmul(displace,inv(slv)) # positions are in direct coordinates
             displace += displace*rattle
             if labeling[g_indx[iAt]] == str(ilab):
                 out_array = array(space_data["aBas"][iAt]) + displace
@@ -423,7 +426,8 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     struct_n = structure_data["strN"]
 
     # The arrow basis.
-    arrow_directions = [[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
+    # Label 0 is no arrow, the others are in the order of the arrow group.
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     # Construct the concentrations of the atoms from the labeling by
@@ -484,7 +488,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
         for iAt in range(structure_data["n"]*system_data["nD"]):
             for ilab in range(system_data["k"]):
                 rattle = uniform(-args["rattle"],args["rattle"])
-                displace = directions[iAt]*args["displace"]*lattice_parameter
+                displace = directions[gIndx[iAt]]*args["displace"]*lattice_parameter
                 # If the displacement is non zero and we're `rattling`
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
-- 
2.43.0


From c10891ceaba0ff529b80ede19525e8233181fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 11/22] fix: zeros stay in the concentrations unless their
 removal is asked for

---
 phenum/phenumStr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 2ab1474..f8064e1 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -198,7 +198,7 @@ def run(args):
     if args["remove_zeros"] == "t":
         args["remove_zeros"] = True
     else:
-        args["remove_zeors"] = False
+        args["remove_zeros"] = False
 
     _make_structures(args)
         
-- 
2.43.0


From 3faae55be3de48d1912a40a6c82a5312cd121f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 12/22] fix: lead's atomic volume was stored as palladium's

---
 phenum/element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/element_data.py b/phenum/element_data.py
index 60bab56..93e280e 100644
--- a/phenum/element_data.py
+++ b/phenum/element_data.py
@@ -12,7 +12,7 @@ element_volume ={"H":37.2958,"He":32.1789,"Li":21.2543,"Be":8.49323,"B":7.24205,
                  "In":26.6861,"Sn":29.3238,"Sb":27.1733,"Te":62.3227,"I":24.3807,"Xe":59.582,
                  "Cs":110.723,"Ba":63.253,"Hf":23.1748,"Ta":18.1323,"W":15.7772,"Re":14.8694,
                  "Os":14.5485,"Ir":14.1558,"Pt":15.0591,"Au":16.9793,"Hg":27.6914,"Tl":29.2949,
-                 "Pd":30.3218,"Bi":31.2849}
+                 "Pb":30.3218,"Bi":31.2849}
 
 def get_lat_param_element(lat_vecs,n_basis_atoms,element):
     """Finds the lattice parameter of an element for the given set of lattice.
-- 
2.43.0


From 0c8d5ab52f0cf5f59c2ce6c21b6cb786158b24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 13/22] fix: concentration limits use each species' own
 denominator

---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 3fa118e..b49276c 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -33,9 +33,9 @@ def get_concs_for_size(size,nspecies,res_concs,nB,concs):
     
     from itertools import product
     if res_concs == True:
-        denom = concs[0][2]
         vol_table = []
         for atom in concs:
+            denom = atom[2]
             minc = min(atom[0:2])
             maxc = max(atom[0:2])
             vol_table.append([int(math.floor(float(minc)/denom*size*nB)),int(math.ceil(float(maxc)/denom*size*nB)),size*nB])
-- 
2.43.0


From 5b72b99d130b002b3b28747ccf246ea41cd501ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 14/22] fix: distributions add up to the requested number and
 never exceed what exists

---
 phenum/structures.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 742e44a..d7b023d 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -71,8 +71,10 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
 
     result = {}
     rtotal = [0]
-    def vinsert(key, value, rtotal, n, result):
+    def vinsert(key, value, limit, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
+            #Neither more than are still needed nor more than there are.
+            value = int(min(value, limit - result.get(key, 0), n - rtotal[0]))
             if value > 0:
                 if key in result:
                     result[key] += value
@@ -90,7 +92,7 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         """
         if n == gtotal:
             for key, value, limit in relvals:
-                vinsert(key, limit, rtotal, n, result)
+                vinsert(key, limit, limit, rtotal, n, result)
         else:
             from math import modf
             from random import random, seed
@@ -119,13 +121,13 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
                     #by the time we have iterated through the whole list.
                     rf, qf = modf(value if recount == 0 else f(delta, *(ids[ftype](key)),dataset=dataset,ftotal=float(gtotal)))
                     retval = int(qf + (1 if random() < rf else 0))
-                    if not vinsert(key, retval, rtotal, n, result):
+                    if not vinsert(key, retval, limit, rtotal, n, result):
                         break
                 recount += 1
 
-            if recount == 3 and rtotal[0] < n: #pragma: no cover
-                from .msg import warn
-                warn("Reached maximum recursion limit in random assignment.")
+            #Whatever is still missing is taken from the most abundant ones.
+            for key, value, limit in relvals:
+                vinsert(key, n-rtotal[0], limit, rtotal, n, result)
                 
     #First, compile a dictionary at the lowest level that has the weights
     #for the desired value of 'n'.
-- 
2.43.0


From 1dd495ddb2620abdb7b612ab17e4057fd07629f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 15/22] fix: picking random arrangements ends once all of them
 have been tried

---
 phenum/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index 756ee1f..61c35e1 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -599,8 +599,13 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
     visited = []
     visited_configs = []
 
+    ncandidates = 1
+    for c_i in C:
+        ncandidates *= c_i
+
     nfound = 0
-    while len(survivors) < num_wanted:
+    # once every configuration has been tried there are no more to be found.
+    while len(survivors) < num_wanted and len(visited) < ncandidates:
         candidate = []
         # pick a random configuration to check against.
         for c_i in C:
-- 
2.43.0


From 10fe28abd09fb4dcb548dfa480660ac6836cb95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 16/22] fix: the minkowski reduction can be switched off

---
 phenum/phenumStr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index f8064e1..4863093 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -195,6 +195,9 @@ def run(args):
     else:
         args["mapping"] = None
         
+    if args["mink"] == "f":
+        args["mink"] = False
+
     if args["remove_zeros"] == "t":
         args["remove_zeros"] = True
     else:
-- 
2.43.0


From f6f1a47a58725b0bf747f29be2861fade45d75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 17/22] fix: restricted distributions count only the wanted
 concentrations

---
 phenum/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index d7b023d..7bca40f 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -326,7 +326,8 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                 distr[tuple(HNF)] = {tuple(c): v for c, v in zip(cs, vs)}
             for m, v in zip(polya[0:-1,0:6], polya[:-1,-1]):
                 if tuple(m) in distr:
-                    stotals[tuple(m)] = v
+                    #Only the concentrations that are wanted may be counted.
+                    stotals[tuple(m)] = sum(distr[tuple(m)].values())
 
         dataset[s] = {
             "distr": distr,
-- 
2.43.0


From 5ebf86337c1f233f2cc8591fef00d0f5cbf09a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 18/22] fix: displaced atoms of a partly arrowed single species
 are placed on all sites

---
 phenum/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index fff70f3..477f4c4 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -464,7 +464,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # if we're doing a purely arrow enumeration then we don't need to
     # do the tree search but instead perform the final step of the
     # algorithm to find the possible unique displacements of the atoms
-    if len(concs) == 1 and all(decorations) >=0:
+    if len(concs) == 1 and n_arrows in (0, len(decorations)):
         configs = []
         if float(num_wanted)/total < 0.001 and accept is None:
             small = True
-- 
2.43.0


From 5f1ce2b32f79aa716b313e0aa09f6e8bda7ab299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 19/22] fix: picking arrow arrangements of large single species
 cells does not need a subset

---
 phenum/phonons.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 477f4c4..f30a45e 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -475,13 +475,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
             a_configs = add_arrows(decorations, agroup, 6, agroup[0:int(cellsize)], accept=accept,
                                    num_wanted=num_wanted, supers=supers)
             
-        count = 1
-        for config in a_configs:
-            if isinstance(subset, list) and count in subset and not small:
-                configs.append(config)
-            else:# accept is not None or small:
-                configs.append(config)
-            count += 1
+        configs.extend(a_configs)
     else:
         if (multinomial(concs) > 100000 or (arrow_types != 0 and sum(concs) >= 12)) and num_wanted <= 100 and num_wanted < total:
             configs = guess_and_check_brancher(sorted_concs, agroup, decorations, 6, supers, cellsize, num_wanted)
-- 
2.43.0


From 7d14536c39d8235ea7a4d70f8acfafd262f441ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 20/22] fix: a subset of a million or more structures is a
 random selection of the wanted size

---
 phenum/phonons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index f30a45e..037584a 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -446,7 +446,10 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
         #1e9, we change the approach to randomization.
         from phenum.msg import warn
         if num_wanted < total:
-            if total < 1e6:
+            if accept is None and total >= 1e6: # pragma: no cover
+                from random import sample
+                subset = sample(range(1, total+1), num_wanted)
+            elif total < 1e6:
                 from random import shuffle
                 subset = list(range(1, total+1)) 
                 shuffle(subset)
-- 
2.43.0


From 5496952328e9a06e0989e614a08d8fb3fb4fe49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 21/22] fix: an arrangement is superperiodic only if its
 displaced sites repeat too

---
 phenum/phonons.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 037584a..17b1eda 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -206,9 +206,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
                             rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config:
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites:
                                 unique = False
                                 break
                 if (accept is None or random() < accept) and unique == True:
@@ -290,9 +290,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
                             rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config: #pragma: no cover
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites: #pragma: no cover
                                 #This happens rarely and so it's really hard to access in tests.
                                 unique = False
                                 break
-- 
2.43.0


From 19401a06249e0933ebda59d4cdc1f786060f8577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 22/22] fix: the structure of a single species cell without
 arrows is not superperiodic by itself

---
 phenum/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 17b1eda..8f6b3e7 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -467,7 +467,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # if we're doing a purely arrow enumeration then we don't need to
     # do the tree search but instead perform the final step of the
     # algorithm to find the possible unique displacements of the atoms
-    if len(concs) == 1 and n_arrows in (0, len(decorations)):
+    if len(concs) == 1 and n_arrows == len(decorations):
         configs = []
         if float(num_wanted)/total < 0.001 and accept is None:
             small = True
-- 
2.43.0

