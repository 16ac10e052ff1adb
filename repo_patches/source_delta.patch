From 8eb569d25baf228b104c7877ae4022e2b341ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:15 +0000
Subject: [PATCH 01/12] fix: use the square root of the moments product in the
 rotational partition function

The documented Z_rot is proportional to sqrt(I1*I2*I3)/sigma, but the bare
product of the moments was used, so isomers were weighted by the square of
their inertia ratio.
---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 3ca8d9b..96304c5 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -241,7 +241,7 @@ class RotationalPF(PartitionFunction):
             functions for each of the N minima in the given temperature range.
         """
         moments_product = np.prod(self.moments, axis=1)[:, None]
-        partition_function = moments_product * np.ones_like(temperature)
+        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)
         partition_function /= self.symmetry_order[:, None]
 
         return partition_function
-- 
2.43.0


From da00924dfb25ea85aa7de98a79981230165e2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:15 +0000
Subject: [PATCH 02/12] fix: sign of the logarithmic derivative of the quantum
 vibrational partition function

W is defined as the derivative of ln(Z) with respect to beta, which for a
harmonic oscillator is minus its mean energy. With the opposite sign the
vibrational and electronic energies were anticorrelated in the heat capacity.
---
 occuprob/partitionfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 96304c5..cf7405d 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -445,7 +445,7 @@ class QuantumHarmonicPF(PartitionFunction):
         multiplied by :math:`\\beta`:
 
         .. math::
-            \\beta W_{vib,a} = \\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
+            \\beta W_{vib,a} = -\\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
                                 \\textrm{coth}(\\beta h\\nu_{a,i}/2)
 
         Parameters
@@ -466,7 +466,7 @@ class QuantumHarmonicPF(PartitionFunction):
 
         aux_w = np.multiply(exponent, coth, where=temperature > 0,
                             out=np.zeros_like(exponent))
-        part_func_w = np.sum(aux_w, axis=1)
+        part_func_w = -np.sum(aux_w, axis=1)
 
         return part_func_w
 
-- 
2.43.0


From 5b75e213a8c93417500687eee088bb5f6249784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:15 +0000
Subject: [PATCH 03/12] fix: cancellation in the heat capacity at low
 temperatures

<W^2> - <W>^2 subtracts numbers that grow as 1/T^2, which left noise and
negative heat capacities. Average the squared deviations instead.
---
 occuprob/superpositions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index d79dbcd..ff42dc8 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -225,8 +225,12 @@ class SuperpositionApproximation():
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
 
+        mean_w = self.calc_ensemble_average(temperature, part_func_d['w'])
+
+        # The variance of W is calculated from the deviations from the mean, as
+        # the difference of the averages loses all precision at low temperatures
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
-                         self.calc_ensemble_average(temperature, part_func_d['w']**2) -
-                         self.calc_ensemble_average(temperature, part_func_d['w'])**2)
+                         self.calc_ensemble_average(temperature,
+                                                    (part_func_d['w'] - mean_w)**2))
 
         return heat_capacity
-- 
2.43.0


From de9ee2bfc7bdc1e8bbb0df82ba369395ee3d12b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:15 +0000
Subject: [PATCH 04/12] fix: heat capacity of an empty superposition

Return None like the other results instead of failing on None**2.
---
 occuprob/superpositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index ff42dc8..732b253 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -225,6 +225,9 @@ class SuperpositionApproximation():
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
 
+        if part_func_d['w'] is None:
+            return None
+
         mean_w = self.calc_ensemble_average(temperature, part_func_d['w'])
 
         # The variance of W is calculated from the deviations from the mean, as
-- 
2.43.0


From 4ff864ca82e13f14b8dc98dfe72c54436db61f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 05/12] fix: occupation probabilities when every partition
 function underflows

The zero-point energy makes the quantum partition functions of all the minima
underflow at low temperatures (below 3 K for benzene), and many classical modes
do the same at any temperature, so the probabilities were NaN. Normalize the
logarithms of the partition functions instead.
---
 occuprob/partitionfunctions.py | 91 ++++++++++++++++++++++++++++++++++
 occuprob/superpositions.py     | 12 +++--
 2 files changed, 100 insertions(+), 3 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index cf7405d..4654ac1 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -57,6 +57,28 @@ class PartitionFunction(ABC):
             functions for each of the N minima in the given temperature range.
         """
 
+    def calc_log_part_func(self, temperature):
+        """
+        Method to calculate the natural logarithm of the partition function.
+        It should be overridden wherever the partition function itself may
+        underflow or overflow.
+
+        Parameters
+        ----------
+        temperature : :obj:`numpy.ndarray`
+            A 1D array of size M containing the temperature values in K.
+
+        Returns
+        -------
+        log_part_func: :obj:`numpy.ndarray`
+            A 2D array of shape (N, M) contaning the logarithm of the partition
+            functions for each of the N minima in the given temperature range.
+        """
+        with np.errstate(divide='ignore'):
+            log_part_func = np.log(self.calc_part_func(temperature))
+
+        return log_part_func
+
     @abstractmethod
     def calc_part_func_w(self, temperature):
         """
@@ -146,6 +168,27 @@ class ElectronicPF(PartitionFunction):
 
         return partition_function
 
+    def calc_log_part_func(self, temperature):
+        """
+        Calculates the natural logarithm of the electronic canonical partition
+        function in the given temperature range.
+
+        Parameters
+        ----------
+        temperature : :obj:`numpy.ndarray`
+            A 1D array of size M containing the temperature values in K.
+
+        Returns
+        -------
+        log_part_func: :obj:`numpy.ndarray`
+            A 2D array of shape (N, M) contaning the logarithm of the partition
+            functions for each of the N minima in the given temperature range.
+        """
+        exponent = calc_exponent(self.relative_energy, temperature)
+        log_part_func = np.log(self.spin_multiplicity)[:, None] - exponent
+
+        return log_part_func
+
     def calc_part_func_w(self, temperature):
         """
         Method to calculate :math:`W_{elec,a}`, the derivative of the partition
@@ -342,6 +385,29 @@ class ClassicalHarmonicPF(PartitionFunction):
 
         return partition_function
 
+    def calc_log_part_func(self, temperature):
+        """
+        Calculates the natural logarithm of the classical vibrational partition
+        function in the given temperature range.
+
+        Parameters
+        ----------
+        temperature : :obj:`numpy.ndarray`
+            A 1D array of size M containing the temperature values in K.
+
+        Returns
+        -------
+        log_part_func: :obj:`numpy.ndarray`
+            A 2D array of shape (N, M) contaning the logarithm of the partition
+            functions for each of the N minima in the given temperature range.
+        """
+        frequencies_gmean = calc_geometric_mean(self.frequencies)
+
+        log_part_func = np.outer(-self.num_vib * np.log(frequencies_gmean),
+                                 np.ones_like(temperature))
+
+        return log_part_func
+
     def calc_part_func_w(self, temperature):
         """
         Method to calculate :math:`W_{vib,a}`, the derivative of the partition
@@ -438,6 +504,31 @@ class QuantumHarmonicPF(PartitionFunction):
 
         return partition_function
 
+    def calc_log_part_func(self, temperature):
+        """
+        Calculates the natural logarithm of the quantum vibrational partition
+        function in the given temperature range.
+
+        Parameters
+        ----------
+        temperature : :obj:`numpy.ndarray`
+            A 1D array of size M containing the temperature values in K.
+
+        Returns
+        -------
+        log_part_func: :obj:`numpy.ndarray`
+            A 2D array of shape (N, M) contaning the logarithm of the partition
+            functions for each of the N minima in the given temperature range.
+        """
+        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
+                                 temperature)
+        log_csch = np.subtract(-exponent, np.log(-np.expm1(-2. * exponent)),
+                               where=temperature > 0,
+                               out=np.zeros_like(exponent))
+        log_part_func = np.sum(log_csch, axis=1)
+
+        return log_part_func
+
     def calc_part_func_w(self, temperature):
         """
         Method to calculate :math:`W_{vib,a}`, the derivative of the partition
diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index 732b253..9f2829c 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -129,12 +129,18 @@ class SuperpositionApproximation():
             A 2D array of shape (N, M) containing the occupation probability of
             each of the N minima.
         """
-        # Calculates the individual partition function contributions
-        partition_functions = self.calc_partition_functions(temperature)
+        # Calculates the logarithm of the individual partition function
+        # contributions, as the contributions themselves may underflow
+        log_partition_functions = self.combine_contributions(temperature, np.sum,
+                                                             "calc_log_part_func")
 
-        if partition_functions is None:
+        if log_partition_functions is None:
             return None
 
+        # A common factor doesn't change the probabilities
+        partition_functions = np.exp(log_partition_functions -
+                                     np.amax(log_partition_functions, axis=0))
+
         # The total partition function is the sum of all the individual
         # contributions of each local minimum considered
         total_partition_function = np.sum(partition_functions, axis=0)
-- 
2.43.0


From b917e8db5244965334124746094ff173a120eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 06/12] fix: detect the null moment of inertia of linear
 molecules within round-off

The moment about the axis of a rotated linear molecule is of the order of
1e-15, and its sign decided whether the isomer kept or lost all its weight.
---
 occuprob/partitionfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 4654ac1..7de7021 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -260,7 +260,10 @@ class RotationalPF(PartitionFunction):
 
     def __init__(self, symmetry_order, moments):
         self.symmetry_order = symmetry_order
-        self.moments = np.where(moments > 0, moments, 1.)
+
+        # The null moment of linear molecules is only zero within round-off
+        threshold = 1.e-6 * np.amax(moments, axis=1, keepdims=True)
+        self.moments = np.where(moments > threshold, moments, 1.)
 
     def calc_part_func(self, temperature):
         """
-- 
2.43.0


From 39d564187d54bd8b6f14dc7f3f0e4ac0f82e87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 07/12] fix: names of the output files for paths containing
 'dat' or '.xyz'

Only the extension has to be replaced: with an input file in data/ the images
were saved to svga/.
---
 occuprob/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 91b771c..ed7c9e0 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -23,6 +23,7 @@
 # SOFTWARE.
 
 import argparse
+import re
 
 import numpy as np
 
@@ -162,12 +163,12 @@ def main():
         if args.out_file:
             outfile = args.out_file + '_' + key + '.dat'
         else:
-            outfile = args.in_file.replace('.xyz', '_') + key + '.dat'
+            outfile = re.sub(r'\.xyz$', '_', args.in_file) + key + '.dat'
 
         save_results(results[key], temperature, outfile)
 
         if args.plot:
-            plotfile = outfile.replace('dat', args.plot_format.lower())
+            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
             plot_results(results[key], key, temperature, plotfile, args.size)
 
 
-- 
2.43.0


From 07cd631ca3ed4ee42b261216b42affab336a0bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 08/12] fix: temperature range beyond --max_temp

Unless the range was a whole number of kelvins, the results included a
temperature above the maximum requested.
---
 occuprob/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index ed7c9e0..7c17ca2 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -148,7 +148,8 @@ def main():
         superposition = SuperpositionApproximation()
         superposition.add_partition_functions(partition_functions)
 
-        temperature = np.arange(args.min_temp, args.max_temp + 1., 1.)
+        # The small increment includes the maximum temperature
+        temperature = np.arange(args.min_temp, args.max_temp + 1.e-6, 1.)
 
         results = {'C': superposition.calc_heat_capacity(temperature),
                    'P': superposition.calc_probability(temperature)}
-- 
2.43.0


From 416c1536350ece29cdc457bbb215fe9bc93151e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 09/12] fix: comparison of dictionaries with arrays of
 different shapes

Arrays that broadcast were considered equal, and those that don't raised a
ValueError.
---
 occuprob/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/utils.py b/occuprob/utils.py
index 3c88696..742314a 100644
--- a/occuprob/utils.py
+++ b/occuprob/utils.py
@@ -103,4 +103,5 @@ def compare_numpy_dictionaries(dict1, dict2):
     if dict1.keys() != dict2.keys():
         return False
 
-    return all(np.allclose(dict1[key], dict2[key]) for key in dict1)
+    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and
+               np.allclose(dict1[key], dict2[key]) for key in dict1)
-- 
2.43.0


From 49f4f2d856386e51238a473a6186eb77e3206092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 10/12] fix: names of the output files for input files without
 the .xyz extension

The underscore before P or C was only written in place of .xyz.
---
 occuprob/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 7c17ca2..31e295d 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -164,7 +164,7 @@ def main():
         if args.out_file:
             outfile = args.out_file + '_' + key + '.dat'
         else:
-            outfile = re.sub(r'\.xyz$', '_', args.in_file) + key + '.dat'
+            outfile = re.sub(r'\.xyz$', '', args.in_file) + '_' + key + '.dat'
 
         save_results(results[key], temperature, outfile)
 
-- 
2.43.0


From 58037ad286d8ae87aa038ec8063a4de4d54bf067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:23 +0000
Subject: [PATCH 11/12] fix: precision of the logarithm of multiplicities
 stored as small integers

---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 7de7021..60660bb 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -185,7 +185,7 @@ class ElectronicPF(PartitionFunction):
             functions for each of the N minima in the given temperature range.
         """
         exponent = calc_exponent(self.relative_energy, temperature)
-        log_part_func = np.log(self.spin_multiplicity)[:, None] - exponent
+        log_part_func = np.log(1. * self.spin_multiplicity)[:, None] - exponent
 
         return log_part_func
 
-- 
2.43.0


From dc096ea41d2c0cdd263ff8f90b02dfaa6fb379c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 12/12] fix: take W relative to the most probable minimum in
 heat capacities

W is proportional to 1/T with vibrational zero-point energies. Below 1e-9 K
its mean, a double, was so inaccurate that the variance of a single minimum
was not zero.
---
 occuprob/superpositions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index 9f2829c..f4ee711 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -234,10 +234,15 @@ class SuperpositionApproximation():
         if part_func_d['w'] is None:
             return None
 
+        # The variance of W is calculated from the deviations from the mean, as
+        # the difference of the averages loses all precision at low temperatures.
+        # For the same reason, W is taken relative to the most probable minimum
+        most_probable = np.argmax(self.calc_probability(temperature), axis=0)
+        part_func_d['w'] = part_func_d['w'] - np.take_along_axis(
+            part_func_d['w'], most_probable[np.newaxis, :], axis=0)
+
         mean_w = self.calc_ensemble_average(temperature, part_func_d['w'])
 
-        # The variance of W is calculated from the deviations from the mean, as
-        # the difference of the averages loses all precision at low temperatures
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                          self.calc_ensemble_average(temperature,
                                                     (part_func_d['w'] - mean_w)**2))
-- 
2.43.0

