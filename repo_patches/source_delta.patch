From 187fe9e2358b03cfccb6cc8677a45762827bb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 1/7] fix: sign of the quantum harmonic log-derivative W

d(ln Z)/d(beta) of prod 1/(2 sinh(beta h nu/2)) is -sum (h nu/2) coth(...).
With the wrong sign the contribution did not combine with the electronic and
rotational ones, and the heat capacity of two or more minima was wrong.
---
 occuprob/partitionfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 3ca8d9b..e3a5b3b 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -445,7 +445,7 @@ class QuantumHarmonicPF(PartitionFunction):
         multiplied by :math:`\\beta`:
 
         .. math::
-            \\beta W_{vib,a} = \\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
+            \\beta W_{vib,a} = -\\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
                                 \\textrm{coth}(\\beta h\\nu_{a,i}/2)
 
         Parameters
@@ -466,7 +466,7 @@ class QuantumHarmonicPF(PartitionFunction):
 
         aux_w = np.multiply(exponent, coth, where=temperature > 0,
                             out=np.zeros_like(exponent))
-        part_func_w = np.sum(aux_w, axis=1)
+        part_func_w = -np.sum(aux_w, axis=1)
 
         return part_func_w
 
-- 
2.43.0


From c30fa1e8b1225d628128393a88d3daa8b4188f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 2/7] fix: rotational partition function uses the square root
 of I1*I2*I3

as documented; without it the rotational weights of the minima were squared.
---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index e3a5b3b..cf7405d 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -241,7 +241,7 @@ class RotationalPF(PartitionFunction):
             functions for each of the N minima in the given temperature range.
         """
         moments_product = np.prod(self.moments, axis=1)[:, None]
-        partition_function = moments_product * np.ones_like(temperature)
+        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)
         partition_function /= self.symmetry_order[:, None]
 
         return partition_function
-- 
2.43.0


From 4850116843f30d74d276dc194ca416c59e5cc1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 3/7] fix: heat capacity of an empty superposition returns None

like the other queries, instead of raising TypeError.
---
 occuprob/superpositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index d79dbcd..976d46b 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -225,6 +225,9 @@ class SuperpositionApproximation():
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
 
+        if part_func_d['w'] is None:
+            return None
+
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                          self.calc_ensemble_average(temperature, part_func_d['w']**2) -
                          self.calc_ensemble_average(temperature, part_func_d['w'])**2)
-- 
2.43.0


From 13afad1ba6d722674cb2351c6f25a75396d835ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 4/7] fix: do not report inconsistent contributions as a
 missing contribution

A ValueError raised by contributions of different shapes was swallowed and
turned into 'You must include at least one partition function' and None.
---
 occuprob/superpositions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index 976d46b..5912a40 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -85,6 +85,8 @@ class SuperpositionApproximation():
             return combined_contributions
 
         except ValueError:
+            if self.partition_functions:
+                raise
             print("You must include at least one partition function.")
 
     def calc_partition_functions(self, temperature):
-- 
2.43.0


From b17a5f106938f927361ec627e17ddb3c1ba156f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 5/7] fix: the temperature grid never exceeds --max_temp

With a span that is not a whole number of kelvin the last point was above it.
---
 occuprob/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 91b771c..0dda54f 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -147,7 +147,7 @@ def main():
         superposition = SuperpositionApproximation()
         superposition.add_partition_functions(partition_functions)
 
-        temperature = np.arange(args.min_temp, args.max_temp + 1., 1.)
+        temperature = args.min_temp + np.arange(np.floor(args.max_temp - args.min_temp) + 1.)
 
         results = {'C': superposition.calc_heat_capacity(temperature),
                    'P': superposition.calc_probability(temperature)}
-- 
2.43.0


From f802e97e0c053877918c692529f5ae452bc27f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 6/7] fix: derive output names from the file extension only

str.replace also rewrote '.xyz' and 'dat' elsewhere in the path, so that the
plots of data/x.xyz went to svga/x_C.svg.
---
 occuprob/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 0dda54f..86797bf 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -23,6 +23,7 @@
 # SOFTWARE.
 
 import argparse
+import os
 
 import numpy as np
 
@@ -162,12 +163,12 @@ def main():
         if args.out_file:
             outfile = args.out_file + '_' + key + '.dat'
         else:
-            outfile = args.in_file.replace('.xyz', '_') + key + '.dat'
+            outfile = os.path.splitext(args.in_file)[0] + '_' + key + '.dat'
 
         save_results(results[key], temperature, outfile)
 
         if args.plot:
-            plotfile = outfile.replace('dat', args.plot_format.lower())
+            plotfile = os.path.splitext(outfile)[0] + '.' + args.plot_format.lower()
             plot_results(results[key], key, temperature, plotfile, args.size)
 
 
-- 
2.43.0


From 132e1aa6d417226851d946bd1a0124258e66dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 7/7] fix: arrays of different shapes do not compare equal

They were broadcast against each other: equal if that worked, ValueError if not.
---
 occuprob/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/utils.py b/occuprob/utils.py
index 3c88696..742314a 100644
--- a/occuprob/utils.py
+++ b/occuprob/utils.py
@@ -103,4 +103,5 @@ def compare_numpy_dictionaries(dict1, dict2):
     if dict1.keys() != dict2.keys():
         return False
 
-    return all(np.allclose(dict1[key], dict2[key]) for key in dict1)
+    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and
+               np.allclose(dict1[key], dict2[key]) for key in dict1)
-- 
2.43.0

