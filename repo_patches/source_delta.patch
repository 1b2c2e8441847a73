From 494a7e78a4fe6c3ca4a05e12ec505245a11ab18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:48 +0000
Subject: [PATCH 01/35] fix: include max_power and discretization in the
 differential operator basis cache key

---
 e2cnn/gspaces/r2/general_r2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index b0f6f8a..29c1b6d 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -185,6 +185,8 @@ class GeneralOnR2(GSpace):
         
         # build the key
         key = dict(**kwargs)
+        key["max_power"] = max_power
+        key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
         if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
-- 
2.43.0


From af957005c95700b63dcb743819875911bdd706fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:48 +0000
Subject: [PATCH 02/35] fix: compare the reflection axis in gspaces equality

---
 e2cnn/gspaces/r2/flip2d_on_r2.py    | 2 +-
 e2cnn/gspaces/r2/fliprot2d_on_r2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/flip2d_on_r2.py b/e2cnn/gspaces/r2/flip2d_on_r2.py
index eddcbfc..712f9aa 100644
--- a/e2cnn/gspaces/r2/flip2d_on_r2.py
+++ b/e2cnn/gspaces/r2/flip2d_on_r2.py
@@ -196,7 +196,7 @@ class Flip2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, Flip2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and self.axis == other.axis
         else:
             return False
 
diff --git a/e2cnn/gspaces/r2/fliprot2d_on_r2.py b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
index 4702c21..4738dd9 100644
--- a/e2cnn/gspaces/r2/fliprot2d_on_r2.py
+++ b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
@@ -295,7 +295,7 @@ class FlipRot2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, FlipRot2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and self.axis == other.axis
         else:
             return False
     
-- 
2.43.0


From 047fd834a7780c4803103d34d120ba7e1d15b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 03/35] fix: do not modify the list of breaks passed to
 GeometricTensor.split

---
 e2cnn/nn/geometric_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 457fb07..2a3c708 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -277,7 +277,7 @@ class GeometricTensor:
         if breaks is None:
             breaks = list(range(1, len(self.type)))
             
-        breaks.append(len(self.type))
+        breaks = list(breaks) + [len(self.type)]
         
         # final list of tensors
         tensors = []
-- 
2.43.0


From f163cf56174e620b58a68ff71c99c1c482ff601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 04/35] fix: do not modify the list of modules passed to
 MergeModule

---
 e2cnn/nn/modules/merge_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5350d6e..d983e4c 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -41,6 +41,8 @@ class MergeModule(EquivariantModule):
         
         labels = []
         
+        modules = list(modules)
+        
         for i in range(len(modules)):
             if isinstance(modules[i][1], str):
                 modules[i] = (modules[i][0], [modules[i][1]])
-- 
2.43.0


From 76e6192099c572fe5b2cecdfcb16d90d4cd7dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 05/35] fix: MultipleModule.evaluate_output_shape passes the
 branches' shapes by label

---
 e2cnn/nn/modules/merge_module.py    | 2 +-
 e2cnn/nn/modules/multiple_module.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index d983e4c..7e21053 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -125,7 +125,7 @@ class MergeModule(EquivariantModule):
             
             out_shape[1] += os[1]
         
-        return out_shape
+        return tuple(out_shape)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
         pass
\ No newline at end of file
diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index b417951..5cdb067 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From 35314a9c12dc84b2118c13d6e978db9749abe81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 06/35] fix: map elements of SO(2) and O(2) back to valid
 elements of the cyclic and dihedral subgroups

---
 e2cnn/group/groups/o2group.py  | 4 ++--
 e2cnn/group/groups/so2group.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 13051e9..4624c74 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -209,7 +209,7 @@ class O2(Group):
                 # child_mapping = lambda e, order=order: None if (e[0] != 0 or not divides(2.*np.pi/order, e[1])) else \
                 #                                        int(round(e[1] * order / (2.*np.pi)))
                 child_mapping = lambda e, order=order: None if (e[0] != 0 or not utils.cycle_isclose(e[1], 0., 2.*np.pi/order)) else \
-                    int(round(e[1] * order / (2.*np.pi)))
+                    int(round(e[1] * order / (2.*np.pi))) % order
 
             elif id[0] is not None and id[1] > 1:
                 # take the elements of the group generated by "2pi/order" and "2pi/k f"
@@ -217,7 +217,7 @@ class O2(Group):
 
                 parent_mapping = lambda e, order=order, axis=axis: (e[0], e[1] * 2. * np.pi / order + e[0]*axis)
                 child_mapping = lambda e, order=order, axis=axis: None if not utils.cycle_isclose(e[1] - e[0]*axis, 0., 2.*np.pi/order) else \
-                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))))
+                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))) % order)
             else:
                 raise ValueError(f"id '{id}' not recognized")
 
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index 62e0542..db9755b 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -143,7 +143,7 @@ class SO2(Group):
             sg = CyclicGroup(order)
             parent_mapping = lambda e, order=order: e*2*np.pi/order
             # child_mapping = lambda e, order=order: None if divmod(e, 2.*np.pi/order)[1] > 1e-15 else int(round(e * order / (2.*np.pi)))
-            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi)))
+            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi))) % order
 
             self._subgroups[id] = sg, parent_mapping, child_mapping
     
-- 
2.43.0


From 0686d9730c5113c80bfba1ba5e117e693772d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 07/35] fix: np.float was removed from numpy, use float in O2
 induced representations

---
 e2cnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 4624c74..f57885d 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -445,7 +445,7 @@ class O2(Group):
             
             size = P.size
             
-            v = np.zeros((repr.size, size), dtype=np.float)
+            v = np.zeros((repr.size, size), dtype=float)
 
             def build_commuting_matrix(rho, t):
                 k = rho.attributes["frequency"]
-- 
2.43.0


From 2f7fdd9d2f13fe74cc9a66e537eac5aec1b54503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 08/35] fix: R2ConvTransposed predicts the output shape of a
 transposed convolution

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 2abfea9..e086e0e 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -250,8 +250,8 @@ class R2ConvTransposed(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ho = (hi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+        wo = (wi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From 1675ab10d47eed92174d51c75b511a1877f5de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 09/35] fix: R2ConvTransposed.export keeps the output padding

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index e086e0e..c91fbae 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -369,6 +369,7 @@ class R2ConvTransposed(EquivariantModule):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From 508bef18ed7f70dc2b6c8d92cdf3cbb7f0dde9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 10/35] fix: allocate the bias buffer of grouped
 R2ConvTransposed with the size of the whole output

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index c91fbae..e9c4ee4 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -145,7 +145,7 @@ class R2ConvTransposed(EquivariantModule):
                 
                 self.register_buffer("bias_expansion", bias_expansion)
                 self.bias = Parameter(torch.zeros(trivials), requires_grad=True)
-                self.register_buffer("expanded_bias", torch.zeros(out_type.size))
+                self.register_buffer("expanded_bias", torch.zeros(self.out_type.size))
             else:
                 self.bias = None
                 self.expanded_bias = None
-- 
2.43.0


From 6c479b6ab3db2dd5034c6a62b59d7176d16711e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 11/35] fix: R2Conv and R2Diffop predict the output shape also
 with a pair of paddings

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 9 +++++++--
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 51c760b..04adcaf 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -400,8 +400,13 @@ class R2Conv(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        if isinstance(self.padding, tuple):
+            ph, pw = self.padding
+        else:
+            ph = pw = self.padding
+        
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1b63ae2..cc9de66 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -505,8 +505,13 @@ class R2Diffop(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        if isinstance(self.padding, tuple):
+            ph, pw = self.padding
+        else:
+            ph = pw = self.padding
+        
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From b3a4d77c104b9abf73e1b03044fa43a8f836dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 12/35] fix: R2Upsampling.export keeps the output size

---
 e2cnn/nn/modules/r2upsampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/modules/r2upsampling.py b/e2cnn/nn/modules/r2upsampling.py
index 7d82754..9a776f4 100644
--- a/e2cnn/nn/modules/r2upsampling.py
+++ b/e2cnn/nn/modules/r2upsampling.py
@@ -201,12 +201,14 @@ class R2Upsampling(EquivariantModule):
         
         if self._align_corners is not None:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
                 align_corners=self._align_corners
             )
         else:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
             )
-- 
2.43.0


From 7193309de49f8ef50a8e97ce598e937da211f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 13/35] fix: adaptive pooling predicts a flat output shape

---
 e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py | 2 +-
 e2cnn/nn/modules/pooling/pointwise_adaptive_max.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
index e44d2a9..b12d034 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return b, self.out_type.size, self.output_size[0], self.output_size[1]
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
index 403b611..f545229 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveMaxPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return b, self.out_type.size, self.output_size[0], self.output_size[1]
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
-- 
2.43.0


From beea2946d874345196445b84b6cc3c1dbfa54c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 14/35] fix: PointwiseAvgPool.evaluate_output_shape does not
 use the dilation it does not have

---
 e2cnn/nn/modules/pooling/pointwise_avg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index ce26012..e69ed81 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -101,9 +101,9 @@ class PointwiseAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+        # compute the output shape (see 'torch.nn.AvgPool2D')
+        ho = (hi + 2 * self.padding[0] - self.kernel_size[0]) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.kernel_size[1]) / self.stride[1] + 1
         
         if self.ceil_mode:
             ho = math.ceil(ho)
-- 
2.43.0


From 46d1782525dfb3e926c627ec90f4286f0d202ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 15/35] fix: pooling modules predict the output shape in ceil
 mode like PyTorch

---
 e2cnn/nn/modules/pooling/pointwise_avg.py | 5 +++++
 e2cnn/nn/modules/pooling/pointwise_max.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index e69ed81..a50d465 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -108,6 +108,11 @@ class PointwiseAvgPool(EquivariantModule):
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # the last window has to start inside the input or its left padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index cbc9e92..92ea9f3 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -119,6 +119,11 @@ class PointwiseMaxPool(EquivariantModule):
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # the last window has to start inside the input or its left padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
-- 
2.43.0


From 4f8da5278d127f22e9d4f6c9c5cde01425448220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 16/35] fix: PointwiseMaxPool.export keeps the ceil mode

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index 92ea9f3..acf3721 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -143,7 +143,8 @@ class PointwiseMaxPool(EquivariantModule):
     
         self.eval()
     
-        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation,
+                                  ceil_mode=self.ceil_mode).eval()
 
 
 class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
-- 
2.43.0


From d73a98a6676f4aa0fd781c345829182286c56de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 17/35] fix: NormMaxPool supports the ceil mode

---
 e2cnn/nn/modules/pooling/norm_max.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index 41113a0..8298644 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -221,10 +221,20 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
-            (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
-            (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
+        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+
+        if self.ceil_mode:
+            ho = math.ceil(ho)
+            wo = math.ceil(wo)
+            # the last window has to start inside the input or its left padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
+        else:
+            ho = math.floor(ho)
+            wo = math.floor(wo)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From bab5be30a0de61c22d8a0b121acc69d7120cda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 18/35] fix: PointwiseMaxPoolAntialiased predicts the shape of
 its own output

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index acf3721..5ebf0f2 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -241,6 +241,22 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
 
+    def evaluate_output_shape(self, input_shape: Tuple[int, int, int, int]) -> Tuple[int, int, int, int]:
+        assert len(input_shape) == 4
+        assert input_shape[1] == self.in_type.size
+
+        b, c, hi, wi = input_shape
+
+        # output shape of the dense max-pooling
+        ho = hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1)
+        wo = wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1)
+
+        # output shape of the strided convolution with the blur filter
+        ho = math.floor((ho + 2 * self._pad[0] - self.filter.shape[2]) / self.stride[0] + 1)
+        wo = math.floor((wo + 2 * self._pad[1] - self.filter.shape[3]) / self.stride[1] + 1)
+
+        return b, self.out_type.size, ho, wo
+
     def export(self):
         r"""
         Export this module to a normal PyTorch :class:`torch.nn.MaxPool2d` module and set to "eval" mode.
-- 
2.43.0


From a632ae8997037f4a484609508bf7086669a56df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 19/35] fix: register the filter of an exported antialiased
 max-pooling as a buffer

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index 5ebf0f2..6b0c84e 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -276,7 +276,7 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
 class FixedConv2D(torch.nn.Module):
     def __init__(self, filter:torch.Tensor, stride, _pad):
         super(FixedConv2D, self).__init__()
-        self._filter = filter
+        self.register_buffer('_filter', filter)
         self._stride = stride
         self._pad = _pad
 
-- 
2.43.0


From 945c6ac02192b5d3b241659de8dbdff5e8b68320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 20/35] fix: norm batch normalizations without affine
 parameters can be reset

---
 e2cnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 e2cnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/induced_norm.py b/e2cnn/nn/modules/batchnormalization/induced_norm.py
index d3996ba..888b4da 100644
--- a/e2cnn/nn/modules/batchnormalization/induced_norm.py
+++ b/e2cnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/e2cnn/nn/modules/batchnormalization/norm.py b/e2cnn/nn/modules/batchnormalization/norm.py
index f952953..01267f8 100644
--- a/e2cnn/nn/modules/batchnormalization/norm.py
+++ b/e2cnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From e35577c33b98b10e87d433bd37576d62c4bbada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 21/35] fix: FieldDropout applies the in-place dropout also to
 non contiguous fields

---
 e2cnn/nn/modules/dropout/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 9082c0d..ad547d9 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -155,8 +155,10 @@ class FieldDropout(EquivariantModule):
             else:
                 # otherwise we have to use indexing
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
-                if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                if self.inplace:
+                    input[:, indices, ...] = out.view(shape)
+                else:
                     output[:, indices, ...] = out.view(shape)
             
         if self.inplace:
-- 
2.43.0


From ce2f4e44fd7468f9e84a514b9a8861340b13e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 22/35] fix: FieldDropout with probability 1 returns zeros
 rather than NaN

---
 e2cnn/nn/modules/dropout/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index ad547d9..d005da8 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -32,11 +32,14 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
         mask = mask.uniform_() > p
         mask = mask.to(torch.float)
         
+        if p < 1.:
+            mask = mask / (1. - p)
+        
         if inplace:
-            input *= mask / (1. - p)
+            input *= mask
             return input
         else:
-            return input * mask / (1. - p)
+            return input * mask
     else:
         return input
 
-- 
2.43.0


From fc9b8ff6a7bf223427895beaeb59a8d338a1596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 23/35] fix: compare the reflection axis of kernel bases

---
 e2cnn/kernels/irreps_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index f4af163..493ee43 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -881,7 +881,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -1063,7 +1063,7 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From 3db5b0656cd3db8c8d4bc2ba117fb0a8387826c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 24/35] fix: differential operator bases with reflections are
 equal to themselves and compare the axis

---
 e2cnn/diffops/irreps_basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 2077fab..49c9d30 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -579,9 +579,9 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
         return attr
 
     def __eq__(self, other):
-        if not isinstance(other, R2DiscreteRotationsSolution):
+        if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -888,7 +888,7 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From 84206f5d79a6e9523a54d2d88f6b6d8404a09630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 25/35] fix: compare the discretization of differential
 operator bases

---
 e2cnn/diffops/basis.py        |  2 +-
 e2cnn/diffops/irreps_basis.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index e23ad7f..c83b5d1 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -195,7 +195,7 @@ class LaplaceProfile(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, LaplaceProfile):
-            return self.max_power == other.max_power
+            return self.max_power == other.max_power and self.disc == other.disc
         else:
             return False
 
diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 49c9d30..96f9f58 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -128,7 +128,7 @@ class R2FlipsSolution(DiffopBasis):
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(self.invert))
@@ -354,7 +354,7 @@ class R2DiscreteRotationsSolution(DiffopBasis):
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(str(self.invert)))
@@ -586,7 +586,7 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(self.invert))
@@ -733,7 +733,7 @@ class R2ContinuousRotationsSolution(DiffopBasis):
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(str(self.invert)))
@@ -893,7 +893,7 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(self.invert))
-- 
2.43.0


From 7028b8e8369fd1f65528892b8c6c8e6b2f75edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 26/35] fix: bases of different dimension compare as different
 instead of raising an error

---
 e2cnn/diffops/irreps_basis.py | 18 +++++++++---------
 e2cnn/kernels/basis.py        |  2 +-
 e2cnn/kernels/irreps_basis.py | 18 +++++++++---------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 96f9f58..54c8a2b 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -128,7 +128,7 @@ class R2FlipsSolution(DiffopBasis):
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(self.invert))
@@ -351,10 +351,10 @@ class R2DiscreteRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(str(self.invert)))
@@ -583,10 +583,10 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(self.invert))
@@ -730,10 +730,10 @@ class R2ContinuousRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(str(self.invert)))
@@ -890,10 +890,10 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(self.invert))
diff --git a/e2cnn/kernels/basis.py b/e2cnn/kernels/basis.py
index edd6cbc..408444f 100644
--- a/e2cnn/kernels/basis.py
+++ b/e2cnn/kernels/basis.py
@@ -220,7 +220,7 @@ class GaussianRadialProfile(KernelBasis):
 
     def __eq__(self, other):
         if isinstance(other, GaussianRadialProfile):
-            return np.allclose(self.radii, other.radii) and np.allclose(self.sigma, other.sigma)
+            return np.shape(self.radii) == np.shape(other.radii) and np.allclose(self.radii, other.radii) and np.allclose(self.sigma, other.sigma)
         else:
             return False
     
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index 493ee43..33f9dc2 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -177,7 +177,7 @@ class R2FlipsSolution(IrrepBasis):
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         else:
-            return np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
 
     def __hash__(self):
         return hash(self.in_irrep) + hash(self.out_irrep) + hash(self.mu.tostring()) + hash(self.gamma)
@@ -436,10 +436,10 @@ class R2DiscreteRotationsSolution(IrrepBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
 
     def __hash__(self):
         return hash(self.in_irrep) + hash(self.out_irrep) + hash(self.mu.tobytes()) + hash(self.gamma.tobytes())
@@ -625,10 +625,10 @@ class R2ContinuousRotationsSolution(IrrepBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
 
     def __hash__(self):
         return hash(self.in_irrep) + hash(self.out_irrep) + hash(self.mu.tostring()) + hash(self.gamma.tostring())
@@ -883,10 +883,10 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
 
     def __hash__(self):
         return hash(self.in_irrep) + hash(self.out_irrep) + hash(self.mu.tostring()) + hash(self.gamma)
@@ -1065,10 +1065,10 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
+            return np.shape(self.mu) == np.shape(other.mu) and np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
 
     def __hash__(self):
         return hash(self.in_irrep) + hash(self.out_irrep) + hash(self.mu.tostring()) + hash(self.gamma)
-- 
2.43.0


From c9bb40171e57e1e3c8d46234eb6fffd04e023f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 27/35] fix: load_cache restores the cached discretizations

---
 e2cnn/diffops/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 8a0ffe5..b907390 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -37,6 +37,7 @@ def load_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
         path (str, optional): the path to the file with discretizations.
         
     """
+    global _DIFFOP_CACHE
     if os.path.exists(path):
         print("Loading cached Diffops")
         with open(path, "rb") as f:
-- 
2.43.0


From f9654e25ec0dee248cf914532fceec6a8e48e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 28/35] fix: store_cache accepts a path without directory

---
 e2cnn/diffops/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index b907390..c044849 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -57,7 +57,8 @@ def store_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
         
     """
     directory = os.path.dirname(path)
-    os.makedirs(directory, exist_ok=True)
+    if directory:
+        os.makedirs(directory, exist_ok=True)
     with open(path, "w+b") as f:
         pickle.dump(_DIFFOP_CACHE, f)
 
-- 
2.43.0


From 95d20c72a4af2734f2e1843149199c7e22c6eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 29/35] fix: building a regular representation does not change
 numpy's print options

---
 e2cnn/group/representation.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 1647f25..c8e390e 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -723,8 +723,6 @@ def build_regular_representation(group: e2cnn.group.Group) -> Tuple[List[e2cnn.g
         
     change_of_basis = np.zeros((size, size))
     
-    np.set_printoptions(precision=4, threshold=10*size**2, suppress=False, linewidth=25*size + 5)
-    
     for e in group.elements:
         ev = P(e) @ v
         change_of_basis[index[e], :] = ev.T
-- 
2.43.0


From 6b1361b665f2a92ec51f60a750c4639327f888df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 30/35] fix: MultipleModule.check_equivariance does not change
 numpy's print options

---
 e2cnn/nn/modules/multiple_module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index 5cdb067..b9324e2 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -159,9 +159,9 @@ class MultipleModule(EquivariantModule):
                     tmp = np.abs((out1.tensor - out2.tensor).detach().numpy())
                     tmp = tmp.reshape(out1.tensor.shape[0], out1.tensor.shape[1], -1).max(axis=2)#.mean(axis=0)
                     
-                    np.set_printoptions(precision=2, threshold=200000000, suppress=True, linewidth=500)
-                    print(tmp.shape)
-                    print(tmp)
+                    with np.printoptions(precision=2, threshold=200000000, suppress=True, linewidth=500):
+                        print(tmp.shape)
+                        print(tmp)
             
                 assert torch.allclose(out1.tensor, out2.tensor, atol=atol, rtol=rtol), \
                     'The error found during equivariance check with element "{}" is too high: max = {}, mean = {} var ={}' \
-- 
2.43.0


From c68f23422b83537a398aadf2f6d7cabefa6d14f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 31/35] fix: find_orthogonal_matrix restores the standard
 output when the solver fails

---
 e2cnn/group/representation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index c8e390e..f6a776f 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -1134,11 +1134,13 @@ def find_orthogonal_matrix(basis: np.ndarray, shape):
     
     solver = TrustRegions(mingradnorm=1e-10, logverbosity=0)
     
-    Xopt = solver.solve(problem)  # , x=x) #, Delta_bar=np.sqrt(basis.shape[1])*2)
-    
-    c = cost(Xopt)
-    
-    sys.stdout = old_stdout  # sys.__stdout__
+    try:
+        Xopt = solver.solve(problem)  # , x=x) #, Delta_bar=np.sqrt(basis.shape[1])*2)
+        
+        c = cost(Xopt)
+    finally:
+        sys.stdout.close()
+        sys.stdout = old_stdout  # sys.__stdout__
     
     # print('TrustRegions, Final Error:', c)
     # print('Weights:', Xopt)
-- 
2.43.0


From 5296917e9a8c66c2348a009b9d5949e9ded0a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:15 +0000
Subject: [PATCH 32/35] fix: a block basis with a single sampled element can be
 built

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 53d4ea2..a13c30c 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -57,12 +57,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         # and filter out the basis elements discarded by the filter
         sampled_basis = torch.Tensor(basis.sample_masked(points, mask=mask)).permute(2, 0, 1, 3)
 
-        # DEPRECATED FROM PyTorch 1.2
-        # PyTorch 1.2 suggests using BoolTensor instead of ByteTensor for boolean indexing
-        # but BoolTensor have been introduced only in PyTorch 1.2
-        # Hence, for the moment we use ByteTensor
-        mask = mask.astype(np.uint8)
-        mask = torch.tensor(mask)
+        mask = torch.tensor(mask, dtype=torch.bool)
 
         # normalize the basis
         sizes = torch.tensor(sizes, dtype=sampled_basis.dtype)
@@ -77,7 +72,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         sampled_basis = sampled_basis[norms, ...]
         
         full_mask = torch.zeros_like(mask)
-        full_mask[mask] = norms.to(torch.uint8)
+        full_mask[mask] = norms
         self._mask = full_mask
 
         self.attributes = [attr for b, attr in enumerate(attributes) if norms[b]]
-- 
2.43.0


From 5a30c8eff76eae68bd34fb5afee8b1de88f77909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:15 +0000
Subject: [PATCH 33/35] fix: GNormBatchNorm supports representations with a
 change of basis

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 5dfbc52..1ad0dd5 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -257,9 +257,9 @@ class GNormBatchNorm(EquivariantModule):
                 normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, h, w)
+                output[:, indices, ...] = normalized.reshape(b, -1, h, w)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, h, w)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, h, w)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
-- 
2.43.0


From 406cbb8c1831acfad82c6da7f242a054c274a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:15 +0000
Subject: [PATCH 34/35] fix: exporting with a padding mode works with torch 2

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 04adcaf..be19109 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -516,7 +516,7 @@ class R2Conv(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index cc9de66..175dfda 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -621,7 +621,7 @@ class R2Diffop(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
-- 
2.43.0


From 3733538298d7ef78ad65af8c166407593e19b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:25 +0000
Subject: [PATCH 35/35] fix: equal block basis expansions have equal hashes

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index a13c30c..7cb90bc 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -134,7 +134,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
             return False
 
     def __hash__(self):
-        return 10000 * hash(self.basis) + 100 * hash(self.sampled_basis) + hash(self._mask)
+        return 10000 * hash(self.basis) + 100 * hash(tuple(self.sampled_basis.shape)) + hash(tuple(self._mask.tolist()))
 
 
 # dictionary storing references to already built basis tensors
-- 
2.43.0

