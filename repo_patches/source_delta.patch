From 445402e8e238243b182c0ff8915366603724409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 01/43] fix: apply space group rotations to the basis atoms in
 the convention of their shifts

The permutation of the basis atoms was found with the rotation applied to row
vectors, the shift and everything else use the rotation on column vectors.
Crystals with a single atom away from the origin were refused, and for bases
with three-fold symmetry wrong site permutations were produced.
---
 phenum/HNFs.py        |  2 +-
 phenum/grouptheory.py | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/phenum/HNFs.py b/phenum/HNFs.py
index ffed7b9..f99cf93 100644
--- a/phenum/HNFs.py
+++ b/phenum/HNFs.py
@@ -151,7 +151,7 @@ def get_HNFs(n,pLV,base_vecs,LatDim,eps_=None):
                  .format(" ".join([str(p) for p in temp_basis[i]]),
                          " ".join([str(p) for p in b_vecs])))
         
-    base_perms = _get_dvector_permutations(pLV,base_vecs,LatDim,eps)
+    base_perms = _get_dvector_permutations(pLV,base_vecs,LatDim,eps,row_action=False)
 
     (hnfs,fix_ops,rp_list,degens) = remove_duplicate_lattices(hnfs,pLV,base_vecs,
                                                                    base_perms,eps_=eps)
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 0367b06..e025b8b 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -408,7 +408,7 @@ def SmithNormalForm(HNF):
         
     return(M,A,B)
 
-def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
+def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps,row_action=True):
     """This routine applies the symmetry operations of the parent lattice
     to the interior points (i.e., the d-set) to see which ones are
     equivalent. Labelings of the lattice points that are contain
@@ -421,6 +421,9 @@ def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
         bas_vacs (list): A 2D array containing the basis vectors for the cell.
         LatDim (int): 2 if a 2D case 3 if 3D.
         eps (float): Finite precesion tolerance.
+        row_action (bool, optional): True if the rotations multiply row vectors
+          from the right. False if they multiply column vectors from the left, which
+          is the convention in which get_spaceGroup returns its shifts.
 
     Returns:
         drp_list (list): The basis vector permutations.
@@ -452,7 +455,10 @@ def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
             temp_b = bas_vecs[0]
         else:
             temp_b = bas_vecs
-        rd_rot = np.matmul(temp_b,rot[iOp]).tolist()
+        if row_action:
+            rd_rot = np.matmul(temp_b,rot[iOp]).tolist()
+        else:
+            rd_rot = np.matmul(temp_b,np.transpose(rot[iOp])).tolist()
 
         if n_d > 1:
             rd_shift = [shift[iOp]]*n_d
@@ -744,7 +750,7 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
                  .format(" ".join([str(p) for p in temp_basis[i]]),
                          " ".join([str(p) for p in b_vecs])))
 
-    par_rp_list = _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps)
+    par_rp_list = _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps,row_action=False)
 
     a_type = [1]*len(bas_vecs)
     
-- 
2.43.0


From b4dafb81982827f7b9c772e7f0ec07da4de61e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 02/43] fix: only require the symmetry to permute the axis
 directions when there are arrows

Rotations of hexagonal, rhombohedral and other oblique lattices do not map the
Cartesian axes onto each other, so these lattices were refused even when no
atom is displaced.
---
 phenum/enumeration.py | 3 ++-
 phenum/grouptheory.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4b73320..21ffc3b 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -83,7 +83,8 @@ def _polya_out(args):
         for thnf in hnfs:
             hnf = [thnf[0][0],thnf[1][0],thnf[1][1],thnf[2][0],thnf[2][1],thnf[2][2]]
             out.write("  {0: <26}".format(' '.join(map(str, hnf))))
-            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3)
+            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3,
+                                  arrows=any(a > 0 for a in a_concs))
             agroup = []
             len_sym_g = len(sym_g.perm.site_perm)
             for i in range(len_sym_g):
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index e025b8b..cf40eba 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -618,7 +618,8 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                             skip[jm] = True
                             break
 
-                if np.count_nonzero(dgp == 0) > 1 or np.count_nonzero(dap == 0) > 1: #pragma: no cover
+                # the directions need not map onto each other when they aren't used
+                if np.count_nonzero(dgp == 0) > 1 or (arrows and np.count_nonzero(dap == 0) > 1): #pragma: no cover
                     print("(d,g)-->(d',g') mapping failed in get_rotation_perm_lists")
                     exit()
 
-- 
2.43.0


From 6759331d6ab2ff208003b14dd354f7660e567953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 03/43] fix: list every operation of a supercell once

Rotations that differ by a lattice translation of the supercell were composed
with every translation each, so that some operations were listed more often
than others and the Polya counts came out wrong.
---
 phenum/grouptheory.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index cf40eba..15d5fc3 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -705,6 +705,20 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 # RPlist(iH)%perm are equivalent to pure translations only.
                 # The following entries are a combination of both.
 
+        # When a rotation acts on the sites as another rotation
+        # followed by a lattice translation the compositions do have
+        # duplicates, keep the first of each.
+        seen = set()
+        unique = []
+        for ip in range(rp_list_nl):
+            key = (tuple(rp_list_perm_sites[ip]),tuple(rp_list_perm_arrows[ip]) if arrows else ())
+            if key not in seen:
+                seen.add(key)
+                unique.append(ip)
+        rp_list_nl = len(unique)
+        rp_list_perm_sites = [rp_list_perm_sites[ip] for ip in unique]
+        rp_list_perm_arrows = [rp_list_perm_arrows[ip] for ip in unique]
+
         RPlist[iH].perm.site_perm = rp_list_perm_sites
         if arrows: 
             RPlist[iH].perm.arrow_perm = rp_list_perm_arrows
-- 
2.43.0


From 12d2b00c2a0cdc799503fba523a871171fa2fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 04/43] fix: do not refuse integer matrices of determinant 1 in
 SmithNormalForm

The determinant is computed in floats and may come out just below 1.
---
 phenum/grouptheory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 15d5fc3..8a3cc03 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -282,7 +282,8 @@ def SmithNormalForm(HNF):
     from numpy import dot
     from copy import deepcopy
     
-    if np.linalg.det(HNF) < 1:
+    # an integer matrix whose determinant is 1 may have one just below 1 in floats
+    if np.linalg.det(HNF) < 0.5:
         raise ValueError("SmithNormalForm routine failed because the input matrix had a "
                          "determinant less than 1.")
 
-- 
2.43.0


From e442d1798d3ca52a91b982f7beadbf68ed91c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 05/43] fix: refuse large non-integer matrices in
 SmithNormalForm

The relative tolerance accepted any fractional part on entries above 1e5.
---
 phenum/grouptheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 8a3cc03..479da59 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -292,7 +292,7 @@ def SmithNormalForm(HNF):
     M = [[int(x) for x in i] for i in Mpre]
     B = [[0,0,0],[0,0,0],[0,0,0]]
 
-    if not np.allclose(M,Mpre):
+    if not np.allclose(M,Mpre,rtol=0):
         raise ValueError("The input matrix to SmithNormalForm was not integer.")
     
     for i in range(3):
-- 
2.43.0


From e4dfee23d30a5292cf30b6a92ade098b51c47dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 06/43] fix: compare displacements site by site when looking
 for superperiodic structures

Only the list of directions was compared, not which sites are displaced, so
structures with part of a species displaced were thrown away as superperiodic.
---
 phenum/phonons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 028a557..68e3d34 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -206,9 +206,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
                             rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config:
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites:
                                 unique = False
                                 break
                 if (accept is None or random() < accept) and unique == True:
-- 
2.43.0


From 62faac1ef22ea3d4566c203374854dfb9bfdc491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 07/43] fix: random displacements never left out the last
 arrangement, hung or kept superperiodic ones

randrange excludes its upper end, so the last arrangement was never drawn and
asking for all arrangements never ended; the superperiodic test compared
instead of assigning.
---
 phenum/phonons.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 68e3d34..19185dc 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -220,13 +220,13 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
             orighash += 1
     else:
         from random import randrange
-        visited = []
-        orighash = randrange(maxpossible)
-        while len(arsurvivors) < num_wanted:
+        visited = set()
+        while len(arsurvivors) < num_wanted and len(visited) <= maxpossible:
+            orighash = randrange(maxpossible+1)
             while orighash in visited:
-                orighash = randrange(maxpossible)
+                orighash = randrange(maxpossible+1)
 
-            visited.append(orighash)
+            visited.add(orighash)
             
             arrow_config = _ainvhash(orighash,narrows,dim)
             unique = True
@@ -285,13 +285,14 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        orig_sites = [i[1] for i in coloring_with_arrows]
-                        perm_sites = [orig_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in arrow_config
-                                         if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and action != list(range(len(action))) and permutation != list(range(len(permutation))): #pragma: no cover
-                            #This happens rarely and so it's really hard to access in tests.
-                            unique == False
+                        if action != list(range(len(action))):
+                            moved = [coloring_with_arrows[i] for i in action]
+                            moved = [[permutation[site[0]] if site[0] >= 0 else site[0], site[1]]
+                                     for site in moved]
+                            if moved == coloring_with_arrows: #pragma: no cover
+                                #This happens rarely and so it's really hard to access in tests.
+                                unique = False
+                                break
 
                 if unique == True:
                     arsurvivors.append(coloring_with_arrows)
-- 
2.43.0


From 7cda0c21a84f3f0a189af755cce545800180929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 08/43] fix: random structures were not distinct or the search
 never ended

Equivalence was tested by hashing a configuration of several colors as if it
had one and against a list of another type, so duplicates were never found;
displacements were compared under the whole group instead of the stabilizer,
more structures than wanted could be returned, and asking for more than exist
never ended.
---
 phenum/tree.py | 86 ++++++++++++++++++--------------------------------
 1 file changed, 30 insertions(+), 56 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index f393d1b..148618a 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -572,6 +572,7 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
 
     from .phonons import how_many_arrows, add_arrows
     from copy import deepcopy
+    from functools import reduce
 
     # redifine the colors so that the arrows are treated like
     # their own color
@@ -581,87 +582,60 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
 
     # Find the mixed radix number counter for the system
     C = _coefficients(concs,n)
+    # the number of different configurations, equivalent ones included
+    npossible = reduce(lambda x, y: x*y, C, 1)
 
     # count how many arrows there are
     (narrows,arrow_types,concs_w_arrows) = how_many_arrows(colors_w_arrows)
-    # prepare the stabalizer array to be the appropriate size
 
-    from random import random, randint
+    from random import randint
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1: #pragma: no cover
         from tqdm import tqdm
         pbar = tqdm(total=num_wanted)
 
     survivors = []
-    visited = []
+    # every configuration that is equivalent to one that was picked already
+    visited = set()
 
     nfound = 0
-    while len(survivors) < num_wanted:
-        candidate = []
+    while len(survivors) < num_wanted and len(visited) < npossible:
         # pick a random configuration to check against.
-        for c_i in C:
-            candidate.append(randint(0,c_i-1))
-
-        while candidate in visited:#pragma: no cover
+        candidate = [randint(0,c_i-1) for c_i in C]
+        config = _invhash(candidate,concs,n)
+        if tuple(config) in visited: #pragma: no cover
             #This happens rarely and so it's really hard to access in tests.
-            candidate = []
-            for c_i in C:
-                candidate.append(randint(0,c_i-1))
-
-        visited.append(candidate)
-        unique = True
+            continue
 
-        config = list(_invhash(candidate,concs,sum(concs)))
+        # the operations that leave the configuration alone are needed
+        # to compare the arrangements of the arrows
+        stabilizer = []
         for perms in group:
-            perm = perms[0]
-
-            new_config = []
-            for j in perm:
-                new_config.append(config[j])
-            new_config = list(new_config)
-
-            new_location = _hash(new_config)
-
-            if new_location in visited and new_location != candidate: #pragma: no cover
-                #This happens rarely and so it's really hard to access in tests.
-                unique = False
-                break
-	    
+            new_config = [config[j] for j in perms[0]]
+            visited.add(tuple(new_config))
+            if new_config == config:
+                stabilizer.append(perms)
+
+        if narrows > 0:
+            # We need to make a copy of the branch with arrows on
+            # it to pass to the add_arrows code.
+            t_config = [deepcopy(colors[leaf -1]) for leaf in config]
+            survivors.extend(add_arrows(t_config, stabilizer, dim, group[0:int(cellsize)],
+                                        nested=True, num_wanted=num_wanted-len(survivors),
+                                        supers=supers, small=True))
         # if there are no arrows and we don't want to store
         # superperiodic structures then we need to see if any
         # translations operations are stabilizers of the
         # configuration to eliminate the unwanted structures.
-        if not supers and narrows == 0 and unique == True:
-            for trans in range(1,int(cellsize)):
-                action = group[trans][0]
-                trans_config = []
-                for act in action:
-                    trans_config.append(config[act])
-                if trans_config == config and action != list(range(int(cellsize))):#pragma: no cover
-                    #This happens rarely and so it's really hard to access in tests.
-                    unique = False
-                    break
-
-        if unique == True:
-            if narrows > 0:
-                # We need to make a copy of the branch with arrows on
-                # it to pass to the add_arrows code.
-                t_config = list(_invhash(candidate,concs,sum(concs)))
-                for con, t_con in enumerate(t_config):
-                    t_config[con] = deepcopy(colors[t_con -1])
-
-                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted, supers = supers, small = True)
-
-                for survivor in arsurvivors:
-                    survivors.append(survivor)
-
-            else:
-                survivors.append([[-1,leaf] for leaf in config])
+        elif supers or not any([config[j] for j in trans[0]] == config
+                               for trans in group[1:int(cellsize)]):
+            survivors.append([[-1,leaf] for leaf in config])
 
         if len(survivors) > nfound:
             nfound = len(survivors)
             if verbosity is not None and verbosity >= 1: #pragma: no cover
                 pbar.update(1)
+
     if verbosity is not None and verbosity >= 1: #pragma: no cover
         pbar.close()
     # done
-- 
2.43.0


From 5b8096de0573fd912f82367e275cf281ce8c9b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 09/43] fix: random displacements of large cells of one species
 fail with an unbound variable

---
 phenum/phonons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 19185dc..5679f35 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -430,6 +430,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # then we don't need to run the polya algorithm.
     if (multinomial(concs) > 100000 and num_wanted <= 100) or (arrow_types !=0 and sum(concs) >= 12 and num_wanted <=100):
         total = 1e10
+        subset = []
     else:
         # now find the number of unique arrangements using
         # polya
-- 
2.43.0


From 0e1410d609a2b3627e6e390014ab25f64dd132c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 10/43] fix: place the displaced atoms of a partly displaced
 single species

all(decorations) >= 0 is always true, so a cell with one species of which only
some atoms are displaced was treated as if the displaced sites were fixed.
---
 phenum/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 5679f35..1d30a21 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -462,7 +462,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # if we're doing a purely arrow enumeration then we don't need to
     # do the tree search but instead perform the final step of the
     # algorithm to find the possible unique displacements of the atoms
-    if len(concs) == 1 and all(decorations) >=0:
+    if len(concs) == 1 and all(d[0] >= 0 for d in decorations):
         configs = []
         if float(num_wanted)/total < 0.001 and accept is None:
             small = True
-- 
2.43.0


From 7d8af36834106c915eeffb2648ef28ea81430750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 11/43] fix: count structures with exact integer arithmetic in
 polya

---
 phenum/polyaburnside.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index f429848..dbe2865 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -287,7 +287,7 @@ class Multinomial(object):
         Returns:
             norm_seq (list): The normalized lust of exponents.
         """
-        return [int(ai/self.power) for ai in seq]
+        return [int(ai)//self.power for ai in seq]
 
     def nchoosekm(self, sequence):
         """Returns the number of different ways to partition an n-element
@@ -339,10 +339,10 @@ class Multinomial(object):
         t = 1
         if k < n-k:
             for i in range(n, n-k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
         else:
             for i in range(n, k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
 
         return t
 
@@ -544,4 +544,4 @@ def polya(concentrations, group, arrowings=None, debug=False):
         pp += p.coeff()
         
     rad = sum([p.coeff() for p in list(polyndict.values())])
-    return int(rad/float(len(group)))
+    return int(rad//len(group))
-- 
2.43.0


From c352532c1e807e2046b7675f5c34f9885c41ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 12/43] fix: multinomial coefficients overflowed for large
 systems

---
 phenum/numerics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phenum/numerics.py b/phenum/numerics.py
index 4a2575d..6761d3f 100755
--- a/phenum/numerics.py
+++ b/phenum/numerics.py
@@ -64,8 +64,10 @@ def multinomial(n):
         new_sum = binomials[i-1][0]-binomials[i-1][1]
         binomials.append([new_sum,n[i]])
         
-    bins = []
+    #Python's integers are used throughout because numpy's overflow for
+    #large systems.
+    result = 1
     for b in binomials:
-        bins.append(binomial_coefficient(b[0],b[1]))
+        result *= binomial_coefficient(int(b[0]),int(b[1]))
     
-    return np.prod(bins)
+    return result
-- 
2.43.0


From e6d2b78dca86915260e5a930fbda4c9f066101e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 13/43] fix: a single generator, or one site, generates a group
 too

---
 phenum/grouptheory.py   | 4 ++++
 phenum/polyaburnside.py | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 479da59..a0388ef 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -897,6 +897,10 @@ def _group(gen): # pragma: no cover
                 # every time d is not in group i add it
                 if d not in groupi:
                     groupi.append(d)
+    # a single generator has no partner to be combined with above
+    for i in gen:
+        if i not in groupi:
+            groupi.append(i)
     # new is a tracker that is 0 while we are still finding new group
     # elements and 1 when no new ones are found
     new = 0
diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index dbe2865..37d1b51 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -356,7 +356,6 @@ def group(gen): #pragma: no cover
     Returns:
         groupi (list): A list of the symmetry group operators.
     """
-    from operator import itemgetter as iget
     def g_apply(operations, source, groupi=None):
         """Applies the specified group operations to the source list of elements and then
         appends it to the group if it is unique.
@@ -369,7 +368,7 @@ def group(gen): #pragma: no cover
         Returns:
             result (list): The result of the symmetry group on the object.
         """
-        result = list(iget(*operations)(source))
+        result = [source[o] for o in operations]
         if groupi is not None and result not in groupi:
             groupi.append(result)
         return result
-- 
2.43.0


From 81072add6e7cb0020a9212fb1b0fbd8e8e6c6919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 14/43] fix: the volume of lead was listed as that of palladium

---
 phenum/element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/element_data.py b/phenum/element_data.py
index 60bab56..93e280e 100644
--- a/phenum/element_data.py
+++ b/phenum/element_data.py
@@ -12,7 +12,7 @@ element_volume ={"H":37.2958,"He":32.1789,"Li":21.2543,"Be":8.49323,"B":7.24205,
                  "In":26.6861,"Sn":29.3238,"Sb":27.1733,"Te":62.3227,"I":24.3807,"Xe":59.582,
                  "Cs":110.723,"Ba":63.253,"Hf":23.1748,"Ta":18.1323,"W":15.7772,"Re":14.8694,
                  "Os":14.5485,"Ir":14.1558,"Pt":15.0591,"Au":16.9793,"Hg":27.6914,"Tl":29.2949,
-                 "Pd":30.3218,"Bi":31.2849}
+                 "Pb":30.3218,"Bi":31.2849}
 
 def get_lat_param_element(lat_vecs,n_basis_atoms,element):
     """Finds the lattice parameter of an element for the given set of lattice.
-- 
2.43.0


From 25cf4b2f1934bf5fa8f550d698d3515fb6a5a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 15/43] fix: species may state their concentration ranges with
 different denominators

---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 3fa118e..b49276c 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -33,9 +33,9 @@ def get_concs_for_size(size,nspecies,res_concs,nB,concs):
     
     from itertools import product
     if res_concs == True:
-        denom = concs[0][2]
         vol_table = []
         for atom in concs:
+            denom = atom[2]
             minc = min(atom[0:2])
             maxc = max(atom[0:2])
             vol_table.append([int(math.floor(float(minc)/denom*size*nB)),int(math.ceil(float(maxc)/denom*size*nB)),size*nB])
-- 
2.43.0


From 4dcab4b92a645aa1d09893be9d74bbfe4fe94210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 16/43] fix: cells with negative interior limits could not be
 mapped to real space

---
 phenum/vector_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index fc7d88d..6833ab7 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -67,6 +67,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
             "x": A list of the concentrations of each atom type.
     """
     from numpy import matmul, allclose, matrix
+    from math import floor
     
     n_d = system_data["nD"]
     n = structure_data["n"]
@@ -101,7 +102,9 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
         # For the limits on the loops, see the "interior_points.pdf" write-up
         for z1 in range(a):
             for z2 in range(int((b*z1)/a), int(c+(b*z1)/a)):
-                for z3 in range(int(z1*(d-(e*b)/c)/a+(e*z2)/c), int(f+z1*(d-(e*b)/c)/a+(e*z2)/c)):
+                # The limits can be negative, f points are needed either way
+                z3_min = int(floor(z1*(d-(e*b)/c)/a+(e*z2)/c))
+                for z3 in range(z3_min, z3_min+f):
                     ic +=1
                     # if ic > n: #pragma: no cover
                     #     from .msg import err
-- 
2.43.0


From 27565c5719d28defa83904293182042837915d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 17/43] fix: displaced atoms were moved along the direction of
 another site, in the wrong units

---
 phenum/io_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0629068..9b6593c 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -337,7 +337,8 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         args (dict): Dictionary of user supplied input.
     """
 
-    from numpy import array
+    from numpy import array, transpose
+    from numpy.linalg import solve
     from phenum.element_data import get_lattice_parameter
     from random import uniform
     from itertools import product
@@ -351,7 +352,8 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     g_indx = space_data["gIndx"]
     arrows = structure_data["directions"]
 
-    arrow_directions = [[0,0,0],[0,0,-1],[0,-1,0],[-1,0,0],[1,0,0],[0,1,0],[0,0,1]]
+    # No displacement, then the directions in the order of the enumeration.
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     concs = [0]*system_data["k"]
@@ -390,7 +392,8 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[iAt]*args["displace"]*lattice_parameter
+            # The positions are written in units of the supercell vectors.
+            displace = solve(transpose(slv),directions[g_indx[iAt]]*args["displace"])
             displace += displace*rattle
             if labeling[g_indx[iAt]] == str(ilab):
                 out_array = array(space_data["aBas"][iAt]) + displace
-- 
2.43.0


From c000ce57bed82aa62cc301b85b66f6c5bb011372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 18/43] fix: the zero counts were removed even when this was
 not asked for

---
 phenum/phenumStr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 2ab1474..f8064e1 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -198,7 +198,7 @@ def run(args):
     if args["remove_zeros"] == "t":
         args["remove_zeros"] = True
     else:
-        args["remove_zeors"] = False
+        args["remove_zeros"] = False
 
     _make_structures(args)
         
-- 
2.43.0


From 61528ddbdc26a4c064c1c97a4ed6c37980bdfc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 19/43] fix: the basis was reduced even when this was switched
 off

---
 phenum/phenumStr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index f8064e1..9f09631 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -200,6 +200,9 @@ def run(args):
     else:
         args["remove_zeros"] = False
 
+    if args["mink"] == "f":
+        args["mink"] = False
+
     _make_structures(args)
         
 if __name__ == '__main__':
-- 
2.43.0


From 18271d5b780a3eb38250af9b95195c6fb623baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 20/43] fix: atoms without a displacement were moved in config
 files, and others along the direction of another site

---
 phenum/io_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 9b6593c..319ddf2 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -425,8 +425,8 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     arrows = structure_data["directions"]
     struct_n = structure_data["strN"]
 
-    # The arrow basis.
-    arrow_directions = [[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
+    # The arrow basis, the first entry is for atoms without an arrow.
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     # Construct the concentrations of the atoms from the labeling by
@@ -487,7 +487,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
         for iAt in range(structure_data["n"]*system_data["nD"]):
             for ilab in range(system_data["k"]):
                 rattle = uniform(-args["rattle"],args["rattle"])
-                displace = directions[iAt]*args["displace"]*lattice_parameter
+                displace = directions[gIndx[iAt]]*args["displace"]*lattice_parameter
                 # If the displacement is non zero and we're `rattling`
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
-- 
2.43.0


From cc5fe6edc0414c23b27ff92d2ea4894a3380efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 21/43] fix: species could not be mapped in config files
 without naming the elements

---
 phenum/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 319ddf2..3676d16 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -442,7 +442,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     def_title = "{}{}\n".format(str(system_data["title"]),str(structure_data["strN"]))
     # Get the lattice parameter for the atomic species provided by the
     # user.
-    if mapping is not None and len(args["species"]) != len(mapping):
+    if mapping is not None and args["species"] is not None and len(args["species"]) != len(mapping):
         species = [args["species"][i] for i in mapping.values()]
     else:
         species = args["species"]
-- 
2.43.0


From 5f390e4c4063fe514507214525eaa0d4b77673e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 22/43] fix: structure numbers below one were read from the
 header of the file

---
 phenum/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 3676d16..1c1f366 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -300,7 +300,7 @@ def read_enum_out(args):
             if isinstance(structures,str):
                 use_struct = lc > 0
             else:
-                use_struct = lc in structures and system["nD"] !=0
+                use_struct = lc > 0 and lc in structures and system["nD"] !=0
             if use_struct:
                 data = temp.split()
                 this_struct = {}
-- 
2.43.0


From 9f76075ed38cc9121e52e5543141e46d8cb27838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 23/43] fix: the totals per shape ignored the filter on the
 compositions

---
 phenum/structures.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 742e44a..0f76f59 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -322,9 +322,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                         count += 1
 
                 distr[tuple(HNF)] = {tuple(c): v for c, v in zip(cs, vs)}
-            for m, v in zip(polya[0:-1,0:6], polya[:-1,-1]):
-                if tuple(m) in distr:
-                    stotals[tuple(m)] = v
+                stotals[tuple(HNF)] = sum(vs)
 
         dataset[s] = {
             "distr": distr,
-- 
2.43.0


From 2c774ed5b599e362ad5e72d617c0e4ae15bc2f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 24/43] fix: a distribution failed when nothing passed the
 filter

---
 phenum/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/structures.py b/phenum/structures.py
index 0f76f59..2556ba6 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -70,6 +70,9 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         n = gtotal
 
     result = {}
+    if gtotal == 0:
+        #Nothing passed the filter.
+        return result
     rtotal = [0]
     def vinsert(key, value, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
-- 
2.43.0


From 86fd5abe09946f60eb6124a1dc98ed4c5a8d7ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 25/43] fix: the filter on compositions only worked for two
 species

---
 phenum/structures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 2556ba6..7996608 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -310,6 +310,8 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                 if tuple(m) in HNFs:
                     stotals[tuple(m)] = v
         elif wanted_concs is not None:
+            #The values may be followed by other columns of a distribution.
+            wanted_concs = [tuple(c[:len(concs[0])]) for c in wanted_concs] if len(concs) > 0 else []
             ctotals = {c: v for c, v in zip(concs,[0]*len(concs))}
             stotals = {}
             for iHNF, HNF in enumerate(polya[0:-1,0:6]):
@@ -454,7 +456,7 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
                 elif restrict[0] == "shape":
                     res_values.append(tuple([int(i) for i in values.split()[0:6]]))
                 elif restrict[0] == "conc":
-                    res_values.append(tuple([int(i) for i in values.split()[1:3]]))
+                    res_values.append(tuple([int(i) for i in values.split()[1:]]))
 
         distr = _distribute(infile, sizes,distribution,n=number,seed=seed,res_type=restrict[0],res_values=res_values)        
     else:
-- 
2.43.0


From d50728e70d8bacb488f8c1c6faea0e8d6f45c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 26/43] fix: distributions did not add up to the requested
 number or gave more than there are

---
 phenum/structures.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 7996608..a5ed3d0 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -74,8 +74,10 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         #Nothing passed the filter.
         return result
     rtotal = [0]
-    def vinsert(key, value, rtotal, n, result):
+    def vinsert(key, value, limit, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
+            #Never exceed the requested total or what is predicted for this key.
+            value = min(value, limit-result.get(key, 0), n-rtotal[0])
             if value > 0:
                 if key in result:
                     result[key] += value
@@ -93,7 +95,7 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         """
         if n == gtotal:
             for key, value, limit in relvals:
-                vinsert(key, limit, rtotal, n, result)
+                vinsert(key, limit, limit, rtotal, n, result)
         else:
             from math import modf
             from random import random, seed
@@ -122,13 +124,13 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
                     #by the time we have iterated through the whole list.
                     rf, qf = modf(value if recount == 0 else f(delta, *(ids[ftype](key)),dataset=dataset,ftotal=float(gtotal)))
                     retval = int(qf + (1 if random() < rf else 0))
-                    if not vinsert(key, retval, rtotal, n, result):
+                    if not vinsert(key, retval, limit, rtotal, n, result):
                         break
                 recount += 1
 
-            if recount == 3 and rtotal[0] < n: #pragma: no cover
-                from .msg import warn
-                warn("Reached maximum recursion limit in random assignment.")
+            #Top up with the most abundant ones that are not exhausted.
+            for key, value, limit in relvals:
+                vinsert(key, limit, limit, rtotal, n, result)
                 
     #First, compile a dictionary at the lowest level that has the weights
     #for the desired value of 'n'.
-- 
2.43.0


From 2e9404a7b8b2a801ce989894898781368db7fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 27/43] fix: rounding errors dropped a displaced atom from
 large cells

---
 phenum/phonons.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 1d30a21..4c5d4ca 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -323,7 +323,9 @@ def arrow_concs(cList,aconcs):
     Returns:
         decoration_w_arrows (list): The labeling of both colors and arrows.
     """
-    aconcs = [int(cList[i]*aconcs[i]) for i in range(len(cList))]
+    # the small number keeps rounding errors, e.g. in 50*0.58, from
+    # dropping a displaced atom.
+    aconcs = [int(cList[i]*aconcs[i]+1e-9) for i in range(len(cList))]
     
     decoration_w_arrows = []
     labels = range(1,len(cList)+1)
-- 
2.43.0


From 8b7fa68f7222a8cfe0c0b2a6b54a2c2c777d2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 28/43] fix: columns of large numbers ran together in the
 structure file

---
 phenum/enumeration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 21ffc3b..f532d3a 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -173,7 +173,8 @@ def _enum_out(args):
             "{8: >10}  {9: >18}  {10: >44}    {11}    {12: >21}\n")
     def fmtn(l, n):
         l = [int(i) for i in l]
-        return (''.join(["{{{0:d}: >{1:d}d}}".format(i, n) for i in range(len(l))])).format(*l)
+        # the leading space keeps numbers that fill their column apart.
+        return (''.join([" {{{0:d}: >{1:d}d}}".format(i, n-1) for i in range(len(l))])).format(*l)
     
     with open(args["outfile"], 'a') as f:
         enumlist = []    
-- 
2.43.0


From 819e217f1dae2a1103b3f729fc8d25f3437ba692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 29/43] fix: an empty request file failed after the header was
 written

---
 phenum/enumeration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index f532d3a..e59beaf 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -192,12 +192,12 @@ def _enum_out(args):
                 labeling, arrowing = io.create_labeling(config)
                 enumlist.append(((hnf[0]*hnf[2]*hnf[5]), hnf, SNF, LT, labeling, arrowing))
 
-            sortenum = sorted(enumlist, key=itemgetter(0, 4))
-            if len(sortenum) > 0:
-                last_sz = sortenum[0][0]
             if verbosity is not None and verbosity >= 1: #pragma: no cover
                 pbar.update(1)
 
+        sortenum = sorted(enumlist, key=itemgetter(0, 4))
+        if len(sortenum) > 0:
+            last_sz = sortenum[0][0]
         for (size, hnf, SNF, LT, labeling, arrowing) in sortenum:
             if size != last_sz:
                 count_s = 1
-- 
2.43.0


From b723c66bba900899139bd972670f5773d7660ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 30/43] fix: the structure file listed the basis atoms outside
 of the cell the labels are for

---
 phenum/enumeration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index e59beaf..2f97027 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -136,6 +136,7 @@ def _enum_out(args):
     from phenum.msg import verbosity
     from random import seed
     from phenum.grouptheory import get_full_HNF, SmithNormalForm
+    from phenum.symmetry import bring_into_cell, _get_transformations
     from os.path import isfile
     from glob import glob
     from copy import deepcopy
@@ -164,6 +165,10 @@ def _enum_out(args):
         _enum_in(temp_args)
             
     systems = io.read_enum(args["input"])
+    # the labels are for the basis atoms mapped inside of the parent cell.
+    latt_to_cart, cart_to_latt = _get_transformations(params["lat_vecs"])
+    params["basis_vecs"] = [bring_into_cell(b_vecs,cart_to_latt,latt_to_cart,1E-10)
+                            for b_vecs in params["basis_vecs"]]
     io.write_enum(params, outfile=args["outfile"])    
 
     count_t = 1
-- 
2.43.0


From ec854fd1e7007607c23f045f8c793b618c74541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 31/43] fix: blank lines and several spaces between the sizes
 could not be read from lattice.in

---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 1c1f366..96b1f17 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -36,9 +36,9 @@ def read_lattice(filename='lattice.in'):
     """
     from .msg import info
     with open(filename,'r') as f:
-        lines = [l for l in f.readlines() if l.strip()[0] != '#']
+        lines = [l for l in f.readlines() if l.strip() and l.strip()[0] != '#']
         
-    sizes = [int(el) for el in lines[0].split(' ')]
+    sizes = [int(el) for el in lines[0].split()]
     bulk = lines[1].strip()[0].lower() == 'b'
     lat_vecs = [list(map(float, l.split())) for l in lines[2:5]]
     nspecies = int(lines[5])
-- 
2.43.0


From 4eccf5f41882d498a5024975db8eb7958954b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 32/43] fix: other files in the folder were taken for tables
 and the order of the files changed the result

---
 phenum/enumeration.py |  7 ++++---
 phenum/structures.py  | 24 ++++++++++++++++--------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 2f97027..8a7092f 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -24,11 +24,11 @@ def _enum_in(args):
         args (dict): The command line inputs.
     """
 
-    from phenum.structures import make_enum_in
+    from phenum.structures import make_enum_in, _table_sizes
     from glob import glob
     from copy import deepcopy
 
-    if not len(glob(args["input"]+".*")) >= 1:
+    if not len(_table_sizes(glob(args["input"]+".*"), args["input"])) >= 1:
         temp_args = deepcopy(args)
         temp_args["outfile"] = args["input"]
         _polya_out(temp_args)
@@ -137,6 +137,7 @@ def _enum_out(args):
     from random import seed
     from phenum.grouptheory import get_full_HNF, SmithNormalForm
     from phenum.symmetry import bring_into_cell, _get_transformations
+    from phenum.structures import _table_sizes
     from os.path import isfile
     from glob import glob
     from copy import deepcopy
@@ -150,7 +151,7 @@ def _enum_out(args):
     params = io.read_lattice(args["lattice"])
 
     if not isfile(args["input"]):
-        if not len(glob("polya.out.*")) >= 1:
+        if not len(_table_sizes(glob("polya.out.*"), "polya.out")) >= 1:
             temp_args = deepcopy(args)
             temp_args["outfile"] = "polya.out"
             _polya_out(temp_args)
diff --git a/phenum/structures.py b/phenum/structures.py
index a5ed3d0..8f05aa1 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -397,6 +397,19 @@ def _print_distribution(distr, distribution, filename=None, header=True, append=
                 else:
                     f.write("  {0: <6}  {1:d}\n".format(size, value))
                     
+def _table_sizes(files, infile):
+    """Finds the cell sizes that 'polya.out' style files exist for.
+
+    Args:
+        files (list of str): The names of the files.
+        infile (str): The name of the 'polya.out' style file without the size.
+
+    Returns:
+        sizes (list of int): The cell sizes.
+    """
+    start = infile + "."
+    return [int(f[len(start):]) for f in files if f.startswith(start) and f[len(start):].isdigit()]
+
 def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,seed=None,
                  restrict=None):
     """Makes an enum.in file if the distrubiton type is all with the
@@ -427,14 +440,9 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
     
     files = listdir(".")
     if sizes is None:
-        sizes = []
-        form = infile
-
-        ready = False
-        for f in files:
-            if form in f and f[0]==form[0]:
-                sizes.append(int(f.split(".")[-1]))
-                ready = True
+        # listdir has no fixed order, the distribution must not depend on it.
+        sizes = sorted(_table_sizes(files, infile))
+        ready = len(sizes) > 0
 
     else:
         for i in sizes:
-- 
2.43.0


From 59afa0a8cf1780e7bc0156dc09ad7b7f41298c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 33/43] fix: the atomic basis of the caller was changed

---
 phenum/HNFs.py        | 2 ++
 phenum/grouptheory.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/phenum/HNFs.py b/phenum/HNFs.py
index f99cf93..feada07 100644
--- a/phenum/HNFs.py
+++ b/phenum/HNFs.py
@@ -141,6 +141,8 @@ def get_HNFs(n,pLV,base_vecs,LatDim,eps_=None):
 
     hnfs = find_all_HNFs(n)
     temp_basis = deepcopy(base_vecs)
+    # the caller's basis stays as it is.
+    base_vecs = deepcopy(base_vecs)
     plv_inv = np.transpose(np.linalg.inv(pLV))
     for i, b_vecs in enumerate(base_vecs):
         base_vecs[i] = bring_into_cell(b_vecs,plv_inv,np.transpose(pLV),eps)
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index a0388ef..58f6bf7 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -756,6 +756,8 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     # the cell
     par_lat_inv = np.transpose(linalg.inv(par_lat))
     temp_basis = deepcopy(bas_vecs)
+    # the caller's basis stays as it is.
+    bas_vecs = deepcopy(bas_vecs)
     for i, b_vecs in enumerate(bas_vecs):
         # par_lat_inv = linalg.inv(np.transpose(par_lat))
         bas_vecs[i] = bring_into_cell(b_vecs,par_lat_inv,np.transpose(par_lat),eps)
-- 
2.43.0


From 050564266758dda2ba4c4321a6cea8e256e5774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 34/43] fix: the group of the caller was changed by counting

---
 phenum/polyaburnside.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index 37d1b51..e1b81e6 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -516,6 +516,8 @@ def polya(concentrations, group, arrowings=None, debug=False):
         raise ValueError("The concentrations don't sum to the number of things the group is acting on!")
             
     len_g = len(group)
+    # the caller's group stays as it is.
+    group = [list(op) for op in group]
     for k, g in itertools.product(range(2),range(len_g)):
         if 0 not in group[g][k]:
             group[g][k] = [j-1 for j in group[g][k]]
-- 
2.43.0


From b8ab0c5ec86f2389ee60dfccfd882324b2871e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 35/43] fix: the positions of the caller were changed

---
 phenum/vector_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index 6833ab7..10f896d 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -444,7 +444,10 @@ def cartesian2direct(sLV,aBas, eps):
         aBas (list): The atomic basis vectors in direct coordinates.
     """
     from numpy import linalg, matmul, array
+    from copy import deepcopy
     
+    # the caller's positions stay as they are.
+    aBas = deepcopy(aBas)
     n_at = len(aBas)
     slv_inv = linalg.inv(sLV)
     # Convert aBas to DIRECT COORDINATES
-- 
2.43.0


From 39da762340b7b3310ad0b069f4e1310e84850014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 36/43] fix: a sample of a very large number of structures has
 the size asked for

---
 phenum/phonons.py | 14 ++++++++++++--
 phenum/tree.py    |  9 ++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 4c5d4ca..48374fc 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -453,7 +453,17 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
                 subset = subset[0:num_wanted]
             else: # pragma: no cover
                 # only used for data sets to large for test cases.
-                subset = num_wanted
+                if accept is not None:
+                    subset = int(num_wanted)
+                elif arrow_types == 0:
+                    from random import randint
+                    numbers = set()
+                    while len(numbers) < num_wanted:
+                        numbers.add(randint(1, total))
+                    subset = list(numbers)
+                else:
+                    # there are too many to be numbered, they're guessed below.
+                    subset = None
         elif num_wanted == total:
             subset = []
         else:
@@ -483,7 +493,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
                 configs.append(config)
             count += 1
     else:
-        if (multinomial(concs) > 100000 or (arrow_types != 0 and sum(concs) >= 12)) and num_wanted <= 100 and num_wanted < total:
+        if subset is None or ((multinomial(concs) > 100000 or (arrow_types != 0 and sum(concs) >= 12)) and num_wanted <= 100 and num_wanted < total):
             configs = guess_and_check_brancher(sorted_concs, agroup, decorations, 6, supers, cellsize, num_wanted)
         else:
             configs = brancher(sorted_concs, agroup, decorations, 6, supers, cellsize, total, subset, accept)
diff --git a/phenum/tree.py b/phenum/tree.py
index 148618a..02ac153 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -384,7 +384,8 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
 
     while branch[0] < C[0] and ((subset is not None and isinstance(subset, list) and len(survivors) < len(subset))
                                 or use_subset == False
-                                or (accept is not None and isinstance(subset, int) and len(survivors) == subset)):
+                                or (accept is not None and subset is None)
+                                or (accept is not None and isinstance(subset, int) and len(survivors) < subset)):
         # perm determines if the new array is unique, if yes unique =
         # 0, if no then unique = 1, perm also outputs the stabilizers
         # for each level, the order for the first level, and the
@@ -405,7 +406,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                     if trans_branch == brancht and action != list(range(int(cellsize))):
                         unique = 1
                         if use_subset:
-                            if count in subset:
+                            if isinstance(subset, list) and count in subset:
                                 loc = subset.index(count)
                                 nv = count
                                 while nv in subset and nv < reduce(mul,C,1):
@@ -448,10 +449,8 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                             if subset is not None and isinstance(subset, list) and count in subset:
                                 survivors.append(z)
                             elif accept is not None and random() < accept and not isinstance(subset,list): #pragma: no cover
-                                if isinstance(subset,int) and len(survivors) < subset: #This option is only for large data sets that
+                                if subset is None or len(survivors) < subset: #This option is only for large data sets that
                                     survivors.append(z) # are too large for unit testing purposes.
-                                else:
-                                    survivors.append(z)
                         count += 1
                 else:
                     # if there are no arrows just
-- 
2.43.0


From b8fc7cb1ddc7ca5ebd2c6ac15efafe0b60ec41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 37/43] fix: numbers of structures beyond 64 bits could not be
 read from the polya tables

---
 phenum/structures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 8f05aa1..882771d 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -278,7 +278,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
         gtotal (int): The total number of structures.u
     """
     from os import path
-    from numpy import loadtxt
+    from numpy import array
     gtotal = 0
     dataset = {}
     for s in cellsizes:
@@ -292,7 +292,9 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
         with open(source) as f:
             headings = f.readline().split()
             concs = [tuple(map(int, h.split(":"))) for h in headings[2:-1]]
-        polya = loadtxt(source, int)
+            rows = [l.split("#")[0].split() for l in f]
+        #The numbers may be too large for numpy's integers.
+        polya = array([list(map(int, r)) for r in rows if len(r) > 0], dtype=object)
         distr = {}
 
         if HNFs is None and wanted_concs is None:
-- 
2.43.0


From b92cf9c26272ffa0e68689a66843b4474b3a48aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 38/43] fix: numbers of 50 digits or more ran together in the
 polya tables

---
 phenum/enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 8a7092f..26aad5d 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -109,14 +109,14 @@ def _polya_out(args):
                     else:
                         total_num = polya(conc, agroup)
 
-                    out.write("{0: <50d}".format(total_num))
+                    out.write("{0: <49d} ".format(total_num))
                     total += total_num
                     conc_totals[iconc] += total_num
             out.write('{0: <10d}\n'.format(total))
         out.write("# " + ''.join(['-' for i in range(len(c_list)*10 + 10 + 30)]) + '\n')
         out.write("{0: <28}".format("  0 0 0 0 0 0"))
         for ctotal in conc_totals:
-            out.write("{0: <50d}".format(ctotal))
+            out.write("{0: <49d} ".format(ctotal))
         out.write("{0: <50d}\n".format(sum(conc_totals)))
         out.close()
         
-- 
2.43.0


From 770e8432bc498e02e619fafdac88bd6cd179a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:22 +0000
Subject: [PATCH 39/43] fix: -polya together with -enum or -distribution wrote
 their output under the name of the tables

---
 phenum/enumeration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 26aad5d..454857f 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -359,8 +359,10 @@ def _script_enum(args, testmode=False):
     set_testmode(testmode)
     if args["polya"]:
         #Perform validation for running polya.
+        # the default file names of the other commands stay as they are.
+        polya_args = dict(args)
         if args["outfile"] == None:
-              args["outfile"] = "polya.out"
+              polya_args["outfile"] = "polya.out"
         if not path.isfile(args["lattice"]):
             raise IOError("The input file {} does not exist.".format(args["lattice"]))
             
@@ -389,7 +391,7 @@ def _script_enum(args, testmode=False):
         raise ValueError(u"'-acceptrate' is to be a float less than 1.")
 
     if args["polya"]:
-        _polya_out(args)
+        _polya_out(polya_args)
     if args["enum"] or (args["enum"] and args["distribution"]):
         _enum_out(args)
     if args["distribution"] and not args["enum"]:
-- 
2.43.0


From d7a4468d736f78b91a18bf0709c581c13b1c9023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:33 +0000
Subject: [PATCH 40/43] fix: crystals without rotational symmetry could not be
 enumerated with displacements

---
 phenum/grouptheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 58f6bf7..fde1904 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -628,7 +628,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
             # record the permutation
             # permutation in the "long form"
             temp_rperms_perm.append(np.transpose(dgp).reshape(n_d*n).tolist()) # store
-            temp_arrow_perm.append(dap)
+            temp_arrow_perm.append(dap.tolist())
 
         # nomenclature:
         # N+t = rotation (N) + fractional translation (t)  (me bethinks....)
-- 
2.43.0


From f35007c493a09820ca045ed4bbb30a305173586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 41/43] fix: integer matrices with large entries were refused
 by the Smith form

---
 phenum/grouptheory.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index fde1904..cd75cb0 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -282,16 +282,20 @@ def SmithNormalForm(HNF):
     from numpy import dot
     from copy import deepcopy
     
-    # an integer matrix whose determinant is 1 may have one just below 1 in floats
-    if np.linalg.det(HNF) < 0.5:
-        raise ValueError("SmithNormalForm routine failed because the input matrix had a "
-                         "determinant less than 1.")
-
     A = [[0,0,0],[0,0,0],[0,0,0]]
     Mpre = deepcopy(list(HNF))
     M = [[int(x) for x in i] for i in Mpre]
     B = [[0,0,0],[0,0,0],[0,0,0]]
 
+    # the determinant of integers, in floats that of large ones is lost in
+    # rounding errors
+    det = (M[0][0]*(M[1][1]*M[2][2]-M[1][2]*M[2][1]) -
+           M[0][1]*(M[1][0]*M[2][2]-M[1][2]*M[2][0]) +
+           M[0][2]*(M[1][0]*M[2][1]-M[1][1]*M[2][0]))
+    if det < 1:
+        raise ValueError("SmithNormalForm routine failed because the input matrix had a "
+                         "determinant less than 1.")
+
     if not np.allclose(M,Mpre,rtol=0):
         raise ValueError("The input matrix to SmithNormalForm was not integer.")
     
-- 
2.43.0


From f9f154bbefb0749c0343fea60ce064c9dcc46636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 42/43] fix: find the point group of large lattices

Volumes and lengths were compared with an absolute tolerance, which is
below the rounding error once the lattice vectors are about a hundred
long: the point group came out empty.
---
 phenum/symmetry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index b49276c..3832f41 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -219,6 +219,9 @@ def get_lattice_pointGroup(a_vecs, eps=1E-10):
     # points in a sphere that contains all of the longest _primitive_ vectors
     cell_volume = abs(numpy.dot(a_vecs[0],numpy.cross(a_vecs[1],a_vecs[2])))
     max_norm = max([numpy.linalg.norm(i) for i in a_vecs])
+    # the rounding errors grow with the size of the cell
+    len_eps = eps*max(1.0,max_norm)
+    vol_eps = eps*max(1.0,max_norm**3)
     n1 = math.ceil(max_norm*numpy.linalg.norm(numpy.cross(a_vecs[1],a_vecs[2])/cell_volume+eps))
     n2 = math.ceil(max_norm*numpy.linalg.norm(numpy.cross(a_vecs[2],a_vecs[0])/cell_volume+eps))
     n3 = math.ceil(max_norm*numpy.linalg.norm(numpy.cross(a_vecs[0],a_vecs[1])/cell_volume+eps))
@@ -234,7 +237,7 @@ def get_lattice_pointGroup(a_vecs, eps=1E-10):
             for k in range(-int(round(n3)), int(round(n3))+1):
                 this_vector = i*a_vecs[0] + j*a_vecs[1] + k*a_vecs[2]
                 length = numpy.linalg.norm(this_vector)
-                if (length > max_norm + eps):
+                if (length > max_norm + len_eps):
                     continue # This vector is outside sphere
                 num_rs += 1
                 r_vecs.append(this_vector.tolist())
@@ -253,7 +256,7 @@ def get_lattice_pointGroup(a_vecs, eps=1E-10):
     lattpg_op = []
     from itertools import permutations
     for i,j,k in permutations(range(num_rs),3):
-        if (abs(r_lengths[i] - norm_avecs[0]) > eps) or (abs(r_lengths[j] - norm_avecs[1]) > eps) or (abs(r_lengths[k] - norm_avecs[2]) > eps) or (abs(cell_volume - abs(numpy.linalg.det([r_vecs[i],r_vecs[j],r_vecs[k]]))) > eps):
+        if (abs(r_lengths[i] - norm_avecs[0]) > len_eps) or (abs(r_lengths[j] - norm_avecs[1]) > len_eps) or (abs(r_lengths[k] - norm_avecs[2]) > len_eps) or (abs(cell_volume - abs(numpy.linalg.det([r_vecs[i],r_vecs[j],r_vecs[k]]))) > vol_eps):
             continue
         # Form the new set of "rotated" basis vectors
         new_vectors = [r_vecs[i],r_vecs[j],r_vecs[k]]
-- 
2.43.0


From 0c97ed52f0a52b7cf976476ffbe540434b0da46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 43/43] fix: let the basis reduction finish

Ten rounds are not enough for some bases of small integers: the program
was ended although the reduction was still making progress.
---
 phenum/vector_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index 10f896d..4fc070e 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -178,7 +178,7 @@ def _minkowski_reduce_basis(IN,eps):
     from numpy import allclose, linalg, array, matrix
     from copy import deepcopy
 
-    limit = 10
+    limit = 100
 
     if allclose(linalg.det(IN),0.0,rtol=eps,atol=eps):
         raise ValueError("Input basis for 'minkowski_reduce_basis' was not linearly independent")
@@ -412,9 +412,9 @@ def _gaussian_reduce_two_vectors(U,V,eps):
     done = False
     it = 1
     while not done:
-        if it > 10: # pragma: no cover
+        if it > 100: # pragma: no cover
             from .msg import err
-            err("gaussian_reduce_two_vectors failed to converge in 10 iterations")
+            err("gaussian_reduce_two_vectors failed to converge in 100 iterations")
             exit()
         R = [V[i]-int(round(dot(U,V)/float(dot(U,U))+1E-10))*U[i] for i in range(3)] #Shorten V as much as possible
         V = U # Swap U and V (so U remains the shortest)
-- 
2.43.0

