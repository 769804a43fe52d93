From 80463c2b4a9971ac00f37ef3e72e312b13d49a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 01/80] fix: ndto2d with all axes grouped into the rows

numpy.prod of an empty shape is the float 1.0, which is not a valid
dimension, so folding all axes of an array (e.g. proj_l1 with a tuple of
all axes) raised a TypeError.
---
 sporco/prox/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/prox/_util.py b/sporco/prox/_util.py
index 16cacf4..5bade11 100644
--- a/sporco/prox/_util.py
+++ b/sporco/prox/_util.py
@@ -60,7 +60,7 @@ def ndto2d(x, axis=-1):
     # Reshape into a 2D array with the axes specified by the axis
     # parameter flattened into an index along rows, and the remaining
     # axes flattened into an index along the columns
-    xtr = xt.reshape((np.prod(xts[0:len(caxis)]), -1))
+    xtr = xt.reshape((int(np.prod(xts[0:len(caxis)])), -1))
     # Return reshaped array and a tuple containing the information
     # necessary to undo the entire operation
     return xtr, (xts, prm)
-- 
2.43.0


From bdc5eceb0012a8437f0bcf478eeace099a4bcf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 02/80] fix: NaN output of prox_l1 for zeros in complex input

---
 sporco/prox/_lp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 1df8802..0c61fa7 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -180,7 +180,8 @@ def prox_l1(v, alpha):
         else:
             return np.sign(v) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
     else:
-        return (v / np.abs(v)) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
+        return zdivide(v, np.abs(v)) * \
+            (np.clip(np.abs(v) - alpha, 0, float('Inf')))
 
 
 
-- 
2.43.0


From 3cb956d8c23e5903a243a0517100af56d71fd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 03/80] fix: pass number of spatial dimensions to zeromean in
 zero-mean dictionary projection

The uncropped zero-mean constraint projection always used the default
dimN=2, giving filters with the wrong mean for 1-D and 3-D problems.
---
 sporco/cnvrep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index f0ec3f3..18b97f5 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -1008,7 +1008,8 @@ def _Pcn_zm(x, dsz, Nv, dimN=2, dimC=1):
       Projection of input onto constraint set
     """
 
-    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz), dimN + dimC)
+    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz, dimN),
+                     dimN + dimC)
 
 
 
-- 
2.43.0


From a18eec3da73c7570a74b406a213ec67f27ccd901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:41 +0000
Subject: [PATCH 04/80] fix: solve_symmetric_sylvester for matrices with
 negative eigenvalues

The eigenvalues of a symmetric matrix argument were replaced by their
absolute values, so that the solution returned for an indefinite matrix
did not satisfy A X B + alpha X = C.
---
 sporco/linalg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sporco/linalg.py b/sporco/linalg.py
index a274522..3d8ed0b 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -851,7 +851,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaA, QA = A, None
         else:
             LambdaA, QA = np.linalg.eigh(A)
-            LambdaA = np.abs(LambdaA)
     if LambdaA.ndim == 1:
         LambdaA = LambdaA[:, np.newaxis]
     if isinstance(B, tuple) and len(B) == 2:
@@ -862,7 +861,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaB, QB = B, None
         else:
             LambdaB, QB = np.linalg.eigh(B)
-            LambdaB = np.abs(LambdaB)
     if LambdaB.ndim == 1:
         LambdaB = LambdaB[np.newaxis]
 
-- 
2.43.0


From 17c7868e44557955f64d4cdbc74ebc1499ce494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:11 +0000
Subject: [PATCH 05/80] fix: allow subsampling step equal to the array size

subsample_array rejected a step equal to the size of an axis, although it
is well defined, so that nkp and kpsvd failed whenever one dimension of
the first Kronecker factor is 1.
---
 sporco/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/array.py b/sporco/array.py
index 6d1c662..c826e13 100644
--- a/sporco/array.py
+++ b/sporco/array.py
@@ -321,8 +321,8 @@ def subsample_array(x, step, pad=False, mode='reflect'):
       array
     """
 
-    if np.any(np.greater_equal(step, x.shape)):
-        raise ValueError('Step size must be less than array size on each axis')
+    if np.any(np.greater(step, x.shape)):
+        raise ValueError('Step size must not exceed array size on each axis')
     sbsz, dvmd = np.divmod(x.shape, step)
     if pad and np.any(dvmd):
         sbsz += np.clip(dvmd, 0, 1)
-- 
2.43.0


From 0491ceea60b0f5714c1740f9b77eef37b760ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 06/80] fix: ntpl2array for entries that are not scalars of a
 common type

---
 sporco/array.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sporco/array.py b/sporco/array.py
index c826e13..4245a45 100644
--- a/sporco/array.py
+++ b/sporco/array.py
@@ -37,9 +37,14 @@ def ntpl2array(ntpl):
       Array representation of input named tuple
     """
 
-    return np.asarray((np.hstack([col for col in ntpl]), ntpl._fields,
-                       ntpl.__class__.__name__), dtype=object)
-
+    # Object arrays are filled element by element so that neither the
+    # types nor the shapes of the namedtuple entries are altered
+    cols = np.empty((len(ntpl),), dtype=object)
+    for k, col in enumerate(ntpl):
+        cols[k] = col
+    arr = np.empty((3,), dtype=object)
+    arr[0], arr[1], arr[2] = cols, ntpl._fields, ntpl.__class__.__name__
+    return arr
 
 
 def array2ntpl(arr):
-- 
2.43.0


From 35bf339c50b72dbc3b11110f452563496005f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:13 +0000
Subject: [PATCH 07/80] fix: pickling of objects of dynamically defined classes
 after another is constructed

---
 sporco/admm/ccmod.py        |  4 ++--
 sporco/admm/ccmodmd.py      |  4 ++--
 sporco/common.py            | 11 +++++++++++
 sporco/dictlrn/cbpdndl.py   |  8 ++++----
 sporco/dictlrn/cbpdndlmd.py |  8 ++++----
 5 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/sporco/admm/ccmod.py b/sporco/admm/ccmod.py
index 6bdfa25..1880c1c 100644
--- a/sporco/admm/ccmod.py
+++ b/sporco/admm/ccmod.py
@@ -959,7 +959,7 @@ def ConvCnstrMOD(*args, **kwargs):
             super(ConvCnstrMOD, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvCnstrMOD
-    _fix_dynamic_class_lookup(ConvCnstrMOD, method)
+    ConvCnstrMOD = _fix_dynamic_class_lookup(ConvCnstrMOD, method)
 
     # Return object of the nested class type
     return ConvCnstrMOD(*args, **kwargs)
@@ -995,7 +995,7 @@ def ConvCnstrMODOptions(opt=None, method='cns'):
             super(ConvCnstrMODOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvCnstrMODOptions
-    _fix_dynamic_class_lookup(ConvCnstrMODOptions, method)
+    ConvCnstrMODOptions = _fix_dynamic_class_lookup(ConvCnstrMODOptions, method)
 
     # Return object of the nested class type
     return ConvCnstrMODOptions(opt)
diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index 7bf82bb..b078e75 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -1089,7 +1089,7 @@ def ConvCnstrMODMaskDcpl(*args, **kwargs):
             super(ConvCnstrMODMaskDcpl, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvCnstrMODMaskDcpl
-    _fix_dynamic_class_lookup(ConvCnstrMODMaskDcpl, method)
+    ConvCnstrMODMaskDcpl = _fix_dynamic_class_lookup(ConvCnstrMODMaskDcpl, method)
 
     # Return object of the nested class type
     return ConvCnstrMODMaskDcpl(*args, **kwargs)
@@ -1126,7 +1126,7 @@ def ConvCnstrMODMaskDcplOptions(opt=None, method='cns'):
             super(ConvCnstrMODMaskDcplOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvCnstrMODMaskDcplOptions
-    _fix_dynamic_class_lookup(ConvCnstrMODMaskDcplOptions, method)
+    ConvCnstrMODMaskDcplOptions = _fix_dynamic_class_lookup(ConvCnstrMODMaskDcplOptions, method)
 
     # Return object of the nested class type
     return ConvCnstrMODMaskDcplOptions(opt)
diff --git a/sporco/common.py b/sporco/common.py
index f57723f..9a9f0b7 100644
--- a/sporco/common.py
+++ b/sporco/common.py
@@ -66,12 +66,22 @@ def _fix_dynamic_class_lookup(cls, pstfx):
     pstfx : string
       Postfix that can be used to identify dynamically generated classes
       that are equivalent by construction
+
+    Returns
+    -------
+    cls : class
+      Class registered in the module namespace: the equivalent class
+      constructed by an earlier call if there is one (so that instances
+      of it can still be pickled), or the `cls` parameter otherwise
     """
 
     # Extended name for the class that will be added to the module namespace
     extnm = '_' + cls.__name__ + '_' + pstfx
     # Get the module in which the dynamic class is defined
     mdl = sys.modules[cls.__module__]
+    # Do not replace an equivalent class that has already been registered
+    if hasattr(mdl, extnm):
+        return getattr(mdl, extnm)
     # Allow lookup of the dynamically generated class within the module via
     # its extended name
     setattr(mdl, extnm, cls)
@@ -80,6 +90,7 @@ def _fix_dynamic_class_lookup(cls, pstfx):
         cls.__qualname__ = extnm
     else:
         cls.__name__ = extnm
+    return cls
 
 
 
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 33eacd9..af9e5f9 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -78,7 +78,7 @@ def ConvBPDNOptions(opt=None, method='admm'):
             super(ConvBPDNOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvBPDNOptions
-    _fix_dynamic_class_lookup(ConvBPDNOptions, method)
+    ConvBPDNOptions = _fix_dynamic_class_lookup(ConvBPDNOptions, method)
 
     # Return object of the nested class type
     return ConvBPDNOptions(opt)
@@ -115,7 +115,7 @@ def ConvBPDN(*args, **kwargs):
             super(ConvBPDN, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvBPDN
-    _fix_dynamic_class_lookup(ConvBPDN, method)
+    ConvBPDN = _fix_dynamic_class_lookup(ConvBPDN, method)
 
     # Return object of the nested class type
     return ConvBPDN(*args, **kwargs)
@@ -174,7 +174,7 @@ def ConvCnstrMODOptions(opt=None, method='pgm'):
             super(ConvCnstrMODOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvCnstrMODOptions
-    _fix_dynamic_class_lookup(ConvCnstrMODOptions, method)
+    ConvCnstrMODOptions = _fix_dynamic_class_lookup(ConvCnstrMODOptions, method)
 
     # Return object of the nested class type
     return ConvCnstrMODOptions(opt)
@@ -221,7 +221,7 @@ def ConvCnstrMOD(*args, **kwargs):
             super(ConvCnstrMOD, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvCnstrMOD
-    _fix_dynamic_class_lookup(ConvCnstrMOD, method)
+    ConvCnstrMOD = _fix_dynamic_class_lookup(ConvCnstrMOD, method)
 
     # Return object of the nested class type
     return ConvCnstrMOD(*args, **kwargs)
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index a5b4b07..d192c3e 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -80,7 +80,7 @@ def ConvBPDNMaskOptions(opt=None, method='admm'):
             super(ConvBPDNMaskOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvBPDNOptions
-    _fix_dynamic_class_lookup(ConvBPDNMaskOptions, method)
+    ConvBPDNMaskOptions = _fix_dynamic_class_lookup(ConvBPDNMaskOptions, method)
 
     # Return object of the nested class type
     return ConvBPDNMaskOptions(opt)
@@ -117,7 +117,7 @@ def ConvBPDNMask(*args, **kwargs):
             super(ConvBPDNMask, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvBPDNMask
-    _fix_dynamic_class_lookup(ConvBPDNMask, method)
+    ConvBPDNMask = _fix_dynamic_class_lookup(ConvBPDNMask, method)
 
     # Return object of the nested class type
     return ConvBPDNMask(*args, **kwargs)
@@ -176,7 +176,7 @@ def ConvCnstrMODMaskOptions(opt=None, method='pgm'):
             super(ConvCnstrMODMaskOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvCnstrMODMaskOptions
-    _fix_dynamic_class_lookup(ConvCnstrMODMaskOptions, method)
+    ConvCnstrMODMaskOptions = _fix_dynamic_class_lookup(ConvCnstrMODMaskOptions, method)
 
     # Return object of the nested class type
     return ConvCnstrMODMaskOptions(opt)
@@ -224,7 +224,7 @@ def ConvCnstrMODMask(*args, **kwargs):
             super(ConvCnstrMODMask, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvCnstrMODMask
-    _fix_dynamic_class_lookup(ConvCnstrMODMask, method)
+    ConvCnstrMODMask = _fix_dynamic_class_lookup(ConvCnstrMODMask, method)
 
     # Return object of the nested class type
     return ConvCnstrMODMask(*args, **kwargs)
-- 
2.43.0


From dd0bc00ee73072490690b6f5c85ec2dcd626d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 08/80] fix: report key path when an options tree leaf is
 indexed as a subtree

---
 sporco/cdict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sporco/cdict.py b/sporco/cdict.py
index 901b4d1..e4ac0fa 100644
--- a/sporco/cdict.py
+++ b/sporco/cdict.py
@@ -273,11 +273,13 @@ class ConstrainedDict(dict):
         c = d
         for key in pth[:-1]:
             if not isinstance(c, dict):
-                raise InvalidValueError(c)
+                raise InvalidValueError(pth)
             elif key not in c:
                 raise UnknownKeyError(pth)
             else:
                 c = c.__getitem__(key)
+        if not isinstance(c, dict):
+            raise InvalidValueError(pth)
         return c
 
 
-- 
2.43.0


From 46e353b01f5631661d8e1d0918482587d507bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:47 +0000
Subject: [PATCH 09/80] fix: do not share nested options subtrees between
 options objects

---
 sporco/cdict.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sporco/cdict.py b/sporco/cdict.py
index e4ac0fa..203356c 100644
--- a/sporco/cdict.py
+++ b/sporco/cdict.py
@@ -9,6 +9,7 @@
 
 from builtins import str
 
+import copy
 import pprint
 
 
@@ -176,6 +177,10 @@ class ConstrainedDict(dict):
                 # attribute that is initialised from the defaults class
                 # attribute and passed down the node tree on construction.
                 vc = ConstrainedDict(vc, sd.pth + (kc,), self.dflt)
+            elif isinstance(value, ConstrainedDict):
+                # Insert a copy so that the subtree is not shared with the
+                # object from which it was obtained
+                vc = copy.copy(value)
             # Check that the current key and value are valid with respect
             # to the defaults tree. Relevant exceptions are caught and
             # re-raised so that the stack trace originates from this
-- 
2.43.0


From 2190709c8992cbf739fbfeca4ad2f7bc8bcf116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:17 +0000
Subject: [PATCH 10/80] fix: constructing dictionary learning options does not
 alter the class defaults

---
 sporco/cdict.py             | 4 ++--
 sporco/dictlrn/cbpdndl.py   | 3 +++
 sporco/dictlrn/cbpdndlmd.py | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sporco/cdict.py b/sporco/cdict.py
index 203356c..504b961 100644
--- a/sporco/cdict.py
+++ b/sporco/cdict.py
@@ -99,10 +99,10 @@ class ConstrainedDict(dict):
         self.pth = pth
         # If dflt parameter has None value then this is the top-level
         # dict in the tree and the dflt attribute should be set to the
-        # class defaults attribute. Otherwise, the dflt attribute is
+        # defaults attribute. Otherwise, the dflt attribute is
         # initialised with the dflt parameter.
         if dflt is None:
-            self.dflt = self.__class__.defaults
+            self.dflt = self.defaults
         else:
             self.dflt = dflt
         # Initialise object with defaults with the corresponding node
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index af9e5f9..605fdf9 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -362,6 +362,9 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             self.xmethod = xmethod
             self.dmethod = dmethod
 
+            # Defaults depend on the methods selected for this object, so
+            # the class attribute shared with other objects is not changed
+            self.defaults = copy.deepcopy(self.defaults)
             self.defaults.update(
                 {'CBPDN': ConvBPDNOptionsDefaults(xmethod),
                  'CCMOD': ConvCnstrMODOptionsDefaults(dmethod)})
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index d192c3e..2b1ea0c 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -368,6 +368,9 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
             self.xmethod = xmethod
             self.dmethod = dmethod
 
+            # Defaults depend on the methods selected for this object, so
+            # the class attribute shared with other objects is not changed
+            self.defaults = copy.deepcopy(self.defaults)
             self.defaults.update(
                 {'CBPDN': ConvBPDNMaskOptionsDefaults(xmethod),
                  'CCMOD': ConvCnstrMODMaskOptionsDefaults(dmethod)})
-- 
2.43.0


From 5ab3b42671fc6c64954e4b1f87119c76dc164d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:56 +0000
Subject: [PATCH 11/80] fix: reconstruct methods of pgm.bpdn.BPDN and
 pgm.cmod.CnstrMOD

---
 sporco/pgm/bpdn.py | 2 +-
 sporco/pgm/cmod.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 7b5f8e4..08844f6 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -239,7 +239,7 @@ class BPDN(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return self.D.dot(X)
 
 
 
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index db89512..c6f9894 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -229,7 +229,7 @@ class CnstrMOD(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return X.dot(self.Z)
 
 
 
-- 
2.43.0


From 73f5ecbb910756a74e99177cdff7ea41d9893c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:53 +0000
Subject: [PATCH 12/80] fix: include the weighting in the Hessian of the
 weighted and masked pgm solvers

---
 sporco/pgm/bpdn.py  |  7 +++++++
 sporco/pgm/cbpdn.py | 14 ++++++++++++++
 sporco/pgm/ccmod.py | 15 +++++++++++++++
 sporco/pgm/cmod.py  |  7 +++++++
 4 files changed, 43 insertions(+)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 08844f6..ef99126 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -359,6 +359,13 @@ class WeightedBPDN(BPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return self.D.T.dot(self.W * self.D.dot(V))
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 95a9d73..f3d146b 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -478,6 +478,20 @@ class ConvBPDNMask(ConvBPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        Df_V = inner(self.Df, V, axis=self.cri.axisM)
+        W2DV = (self.W**2) * irfftn(Df_V, self.cri.Nv, self.cri.axisN)
+        hessfv = np.conj(self.Df) * rfftn(W2DV, self.cri.Nv, self.cri.axisN)
+        # Multiple channel signal, multiple channel dictionary
+        if self.cri.Cd > 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{m} - \mathbf{s}) \|_2^2`
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 2059b28..acefe89 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -576,6 +576,21 @@ class ConvCnstrMODMask(ConvCnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        ZV = irfftn(inner(self.Zf, V, axis=self.cri.axisM), self.cri.Nv,
+                    self.cri.axisN)
+        W2ZVf = rfftn((self.W**2) * ZV, self.cri.Nv, self.cri.axisN)
+        hessfv = inner(np.conj(self.Zf), W2ZVf, axis=self.cri.axisK)
+        # Multiple channel signal, single channel dictionary
+        if self.cri.C > 1 and self.cri.Cd == 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \sum_k \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{k,m} - \mathbf{s}_k) \|_2^2`
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index c6f9894..2178d73 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -325,6 +325,13 @@ class WeightedCnstrMOD(CnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return (self.W * V.dot(self.Z)).dot(self.Z.T)
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
-- 
2.43.0


From de2452845b9750613e4e355aaa9aee1d6ce39f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:21 +0000
Subject: [PATCH 13/80] fix: do not share stateful pgm step size and
 backtracking objects between solvers

---
 sporco/pgm/pgm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 0f25ea5..3c4ed7e 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -243,12 +243,14 @@ class PGM(IterativeSolver):
 
         # Configure policy for step size
         # Step size policy is turned off if Backtrack is enabled
-        self.stepsizepolicy = self.opt['StepSizePolicy']
+        # Policy objects may have internal state, so that each solver requires
+        # its own copy
+        self.stepsizepolicy = copy.copy(self.opt['StepSizePolicy'])
         if self.opt['Backtrack'] is not None:
             self.stepsizepolicy = None
 
         # Configure Momentum coefficients
-        self.momentum = self.opt['Momentum']
+        self.momentum = copy.copy(self.opt['Momentum'])
 
         # If using adaptative stop criterion, set tau0 parameter
         if self.opt['AutoStop', 'Enabled']:
@@ -264,7 +266,7 @@ class PGM(IterativeSolver):
         self.F = None
         self.Q = None
         self.iterBTrack = None
-        self.backtrack = self.opt['Backtrack']
+        self.backtrack = copy.copy(self.opt['Backtrack'])
 
         self.Y = None
 
-- 
2.43.0


From a5994911f171e47a8f22a6c6272d48c052e8cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:13 +0000
Subject: [PATCH 14/80] fix: restore the previous iterate in the spatial domain
 in monotone PGMDFT

---
 sporco/pgm/pgm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 3c4ed7e..ba65a47 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -808,6 +808,7 @@ class PGMDFT(PGM):
                 # If increment on objective function
                 # revert to previous iterate
                 self.Xf = self.Xfprv.copy()
+                self.X[:] = self.Xprv
                 self.objfn = self.objfn_prev
 
         return gradf
@@ -843,6 +844,7 @@ class PGMDFT(PGM):
             self.Yfprv = self.Yf.copy()
 
         if self.opt['Monotone']:
+            self.Xprv = self.X.copy()
             if self.k == 0:
                 self.objfn = self.eval_objfn()
             self.objfn_prev = self.objfn
-- 
2.43.0


From e1b0fb17aa8f152ca01a892cb2b94694fd3a6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:59 +0000
Subject: [PATCH 15/80] fix: objective function value of the first iteration of
 monotone PGM

---
 sporco/pgm/pgm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index ba65a47..a7231c9 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -420,6 +420,9 @@ class PGM(IterativeSolver):
                 # revert to previous iterate
                 self.X = self.Xprv.copy()
                 self.objfn = self.objfn_prev
+        elif self.opt['Monotone']:
+            # No previous iterate to revert to
+            self.objfn = self.eval_objfn()
 
         return grad
 
@@ -810,6 +813,9 @@ class PGMDFT(PGM):
                 self.Xf = self.Xfprv.copy()
                 self.X[:] = self.Xprv
                 self.objfn = self.objfn_prev
+        elif self.opt['Monotone']:
+            # No previous iterate to revert to
+            self.objfn = self.eval_objfn()
 
         return gradf
 
-- 
2.43.0


From 581903ac0311b31e522a48d0a19cb520a0e6057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:56 +0000
Subject: [PATCH 16/80] fix: gradient_filters for axes not starting at zero and
 for default dtype

---
 sporco/fft.py    | 2 +-
 sporco/signal.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index ab1ed28..930a8a1 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -55,7 +55,7 @@ def is_complex_dtype(dtype):
       True if the dtype is complex, otherwise False
     """
 
-    return dtype.kind == 'c'
+    return np.dtype(dtype).kind == 'c'
 
 
 
diff --git a/sporco/signal.py b/sporco/signal.py
index 802b091..1282135 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -229,8 +229,8 @@ def gradient_filters(ndim, axes, axshp, dtype=None):
         dtype = np.float32
     g = np.zeros([2 if k in axes else 1 for k in range(ndim)] +
                  [len(axes),], dtype)
-    for k in axes:
-        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (k,)] = \
+    for n, k in enumerate(axes):
+        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (n,)] = \
             np.array([1, -1])
     if is_complex_dtype(dtype):
         Gf = fftn(g, axshp, axes=axes)
-- 
2.43.0


From 71facece9411ed9b8f5abf31bad78221e831735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:32 +0000
Subject: [PATCH 17/80] fix: finite differences on negative and singleton axes

---
 sporco/signal.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sporco/signal.py b/sporco/signal.py
index 1282135..193500a 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -159,6 +159,8 @@ def grad(x, axis, zero_pad=False):
       Output array
     """
 
+    if axis < 0:
+        axis = x.ndim + axis
     if zero_pad:
         xg = np.diff(x, axis=axis, prepend=0, append=0)
     else:
@@ -190,8 +192,12 @@ def gradT(x, axis, zero_pad=False):
       Output array
     """
 
+    if axis < 0:
+        axis = x.ndim + axis
     if zero_pad:
         xg = -np.diff(x, axis=axis)
+    elif x.shape[axis] == 1:
+        xg = np.zeros_like(x)
     else:
         slc0 = (slice(None),) * axis
         xg = np.roll(x, 1, axis=axis) - x
@@ -230,6 +236,9 @@ def gradient_filters(ndim, axes, axshp, dtype=None):
     g = np.zeros([2 if k in axes else 1 for k in range(ndim)] +
                  [len(axes),], dtype)
     for n, k in enumerate(axes):
+        if axshp[n] == 1:
+            # Circular difference on an axis with a single sample is zero
+            continue
         g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (n,)] = \
             np.array([1, -1])
     if is_complex_dtype(dtype):
-- 
2.43.0


From 5da08cdefae2e421db3cb3ff7bbadaf3197c7a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 18/80] fix: adjoint of the gradient in TV denoising for axes
 other than the leading ones

---
 sporco/admm/tvl1.py | 3 ++-
 sporco/admm/tvl2.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 5380f68..0beba9a 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -333,7 +333,8 @@ class TVL1Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes] +
+            [gradT(X[..., n], ax)[..., np.newaxis]
+             for n, ax in enumerate(self.axes)] +
             [X[..., -1:],], axis=X.ndim-1), axis=X.ndim-1)
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 348fb36..071a312 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -323,7 +323,8 @@ class TVL2Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes],
+            [gradT(X[..., n], ax)[..., np.newaxis]
+             for n, ax in enumerate(self.axes)],
             axis=X.ndim-1), axis=X.ndim-1)
 
 
-- 
2.43.0


From a9eec6e31820254583cdce4680b4d81b2e9ea2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:22 +0000
Subject: [PATCH 19/80] fix: coefficient constraints with joint sparsity and
 l1-ball projection

---
 sporco/admm/bpdn.py  | 13 +++++++++----
 sporco/admm/cbpdn.py | 13 +++++++++----
 sporco/admm/pdcsc.py | 17 +++++++++++------
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/sporco/admm/bpdn.py b/sporco/admm/bpdn.py
index 459ee9d..f5c059a 100644
--- a/sporco/admm/bpdn.py
+++ b/sporco/admm/bpdn.py
@@ -568,10 +568,13 @@ class BPDNJoint(BPDN):
         r"""Minimise Augmented Lagrangian with respect to
         :math:`\mathbf{y}`."""
 
+        # Constraints on the coefficients are imposed before the proximal
+        # operator, which is not separable, and preserves them
+        self.Y = self.AX + self.U
+        GenericBPDN.ystep(self)
         self.Y = np.asarray(sp.prox_sl1l2(
-            self.AX + self.U, (self.lmbda / self.rho) * self.wl1,
+            self.Y, (self.lmbda / self.rho) * self.wl1,
             self.mu / self.rho, axis=-1), dtype=self.dtype)
-        GenericBPDN.ystep(self)
 
 
 
@@ -897,9 +900,11 @@ class BPDNProjL1(GenericBPDN):
         :math:`\mathbf{y}`.
         """
 
-        self.Y = np.asarray(sp.proj_l1(self.AX + self.U, self.gamma, axis=0),
-                            dtype=self.dtype)
+        # Constraints on the coefficients are imposed before the projection, which is not separable, and preserves them
+        self.Y = self.AX + self.U
         super(BPDNProjL1, self).ystep()
+        self.Y = np.asarray(sp.proj_l1(self.Y, self.gamma, axis=0),
+                            dtype=self.dtype)
 
 
 
diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7b08026..5357848 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -787,11 +787,14 @@ class ConvBPDNJoint(ConvBPDN):
         :math:`\mathbf{y}`.
         """
 
-        self.Y = sp.prox_sl1l2(self.AX + self.U,
+        # Constraints on the coefficients are imposed before the proximal
+        # operator, which is not separable, and preserves them
+        self.Y = self.AX + self.U
+        GenericConvBPDN.ystep(self)
+        self.Y = sp.prox_sl1l2(self.Y,
                                (self.lmbda / self.rho) * self.wl1,
                                (self.mu / self.rho) * self.wl21,
                                axis=self.cri.axisC)
-        GenericConvBPDN.ystep(self)
 
 
 
@@ -1375,10 +1378,12 @@ class ConvBPDNProjL1(GenericConvBPDN):
         :math:`\mathbf{y}`.
         """
 
-        self.Y = sp.proj_l1(self.AX + self.U, self.gamma,
+        # Constraints on the coefficients are imposed before the projection, which is not separable, and preserves them
+        self.Y = self.AX + self.U
+        super(ConvBPDNProjL1, self).ystep()
+        self.Y = sp.proj_l1(self.Y, self.gamma,
                             axis=self.cri.axisN + (self.cri.axisC,
                                                    self.cri.axisM))
-        super(ConvBPDNProjL1, self).ystep()
 
 
 
diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 90ecec5..dbd2ffb 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -267,10 +267,13 @@ class ConvProdDictBPDNJoint(ConvProdDictBPDN):
         :math:`\mathbf{y}`.
         """
 
-        self.Y = prox_sl1l2(self.AX + self.U,
+        # Constraints on the coefficients are imposed before the proximal
+        # operator, which is not separable, and preserves them
+        self.Y = self.AX + self.U
+        cbpdn.GenericConvBPDN.ystep(self)
+        self.Y = prox_sl1l2(self.Y,
                             (self.lmbda / self.rho) * self.wl1,
                             (self.mu / self.rho), axis=self.cri.axisC)
-        cbpdn.GenericConvBPDN.ystep(self)
 
 
 
@@ -683,13 +686,15 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
         :math:`\mathbf{y}`.
         """
 
-        AXU = self.AX + self.U
-        Y0 = prox_l1(self.block_sep0(AXU) - self.S, (1.0/self.rho)*self.W)
-        Y1 = prox_sl1l2(self.block_sep1(AXU), 0.0,
+        # Constraints on the coefficients are imposed before the proximal
+        # operator, which is not separable, and preserves them
+        self.Y = self.AX + self.U
+        cbpdn.ConvTwoBlockCnstrnt.ystep(self)
+        Y0 = prox_l1(self.block_sep0(self.Y) - self.S, (1.0/self.rho)*self.W)
+        Y1 = prox_sl1l2(self.block_sep1(self.Y), 0.0,
                         (self.lmbda/self.rho)*self.wl21,
                         axis=self.cri.axisC)
         self.Y = self.block_cat(Y0, Y1)
-        cbpdn.ConvTwoBlockCnstrnt.ystep(self)
 
 
 
-- 
2.43.0


From 7af1a137591a4e220c87e7ab1a3516a64373e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:08 +0000
Subject: [PATCH 20/80] fix: NoBndryCross with filters of unit size on some
 axis

---
 sporco/admm/cbpdn.py    | 10 ++++++----
 sporco/admm/parcbpdn.py |  5 +++--
 sporco/pgm/cbpdn.py     |  5 +++--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 5357848..cab46a9 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -307,8 +307,9 @@ class GenericConvBPDN(admm.ADMMEqual):
             self.Y[self.Y < 0.0] = 0.0
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
-                self.Y[(slice(None),) * n +
-                       (slice(1 - self.D.shape[n], None),)] = 0.0
+                if self.D.shape[n] > 1:
+                    self.Y[(slice(None),) * n +
+                           (slice(1 - self.D.shape[n], None),)] = 0.0
 
 
 
@@ -1660,8 +1661,9 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
                 Y1[Y1 < 0.0] = 0.0
             if self.opt['NoBndryCross']:
                 for n in range(0, self.cri.dimN):
-                    Y1[(slice(None),)*n +
-                       (slice(1-self.D.shape[n], None),)] = 0.0
+                    if self.D.shape[n] > 1:
+                        Y1[(slice(None),)*n +
+                           (slice(1-self.D.shape[n], None),)] = 0.0
             self.block_sep1(self.Y)[:] = Y1
 
 
diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f8ff768..25afe60 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -228,8 +228,9 @@ def par_y1step(i):
         Y1[Y1 < 0.0] = 0.0
     if mp_NoBndryCross:
         for n in range(len(mp_Nv)):
-            Y1[(slice(None),) + (slice(None),)*n +
-               (slice(1-mp_Dshp[n], None),)] = 0.0
+            if mp_Dshp[n] > 1:
+                Y1[(slice(None),) + (slice(None),)*n +
+                   (slice(1-mp_Dshp[n], None),)] = 0.0
     mp_Y1[mp_grp[i]:mp_grp[i+1]] = Y1
 
 
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index f3d146b..4bd72dd 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -293,8 +293,9 @@ class ConvBPDN(pgm.PGMDFT):
             U[U < 0.0] = 0.0
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
-                U[(slice(None),) * n +
-                  (slice(1 - self.D.shape[n], None),)] = 0.0
+                if self.D.shape[n] > 1:
+                    U[(slice(None),) * n +
+                      (slice(1 - self.D.shape[n], None),)] = 0.0
         return U
 
 
-- 
2.43.0


From 690faeb2a174cb150ea05461442a5c15f2df6285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 21/80] fix: set ConvBPDN parameters before the initialisation
 that depends on them

---
 sporco/admm/cbpdn.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index cab46a9..a30eb2b 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -567,14 +567,12 @@ class ConvBPDN(GenericConvBPDN):
         # Set dtype attribute based on S.dtype and opt['DataType']
         self.set_dtype(opt, S.dtype)
 
-        # Call parent class __init__
-        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
-
         # Set default lambda value if not specified
         if lmbda is None:
             cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
-            Df = self.fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
-            Sf = self.fftn(S.reshape(cri.shpS), axes=cri.axisN)
+            fftn = fftn_func(np.isrealobj(D) and np.isrealobj(S))
+            Df = fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
+            Sf = fftn(S.reshape(cri.shpS), axes=cri.axisN)
             b = np.conj(Df) * Sf
             lmbda = 0.1 * abs(b).max()
 
@@ -583,7 +581,7 @@ class ConvBPDN(GenericConvBPDN):
 
         # Set penalty parameter
         self.set_attr('rho', opt['rho'], dval=(50.0 * self.lmbda + 1.0),
-                      dtype=real_dtype(self.dtype), reset=True)
+                      dtype=real_dtype(self.dtype))
 
         # Set rho_xi attribute (see Sec. VI.C of wohlberg-2015-adaptive)
         if self.lmbda != 0.0:
@@ -591,7 +589,11 @@ class ConvBPDN(GenericConvBPDN):
         else:
             rho_xi = 1.0
         self.set_attr('rho_xi', opt['AutoRho', 'RsdlTarget'], dval=rho_xi,
-                      dtype=real_dtype(self.dtype), reset=True)
+                      dtype=real_dtype(self.dtype))
+
+        # Call parent class __init__ (after setting the parameters on which
+        # the initialisation of other attributes depends)
+        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
 
         # Set l1 term weight array
         self.wl1 = np.asarray(opt['L1Weight'], dtype=real_dtype(self.dtype))
-- 
2.43.0


From cb879390784095f1ba217d1f7ea44719f270cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:51 +0000
Subject: [PATCH 22/80] fix: proximal operator of the TV term in
 ConvBPDNScalarTV

---
 sporco/admm/cbpdntv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 5981405..6baf958 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -316,7 +316,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho)
+        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
+                                       axis=-1)
         self.Y[..., -1] = sp.prox_l1(AXU[..., -1],
                                      (self.lmbda/self.rho) * self.Wl1)
 
-- 
2.43.0


From 1ee1244266e239ec782f0a241e50373f0ae0290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:20 +0000
Subject: [PATCH 23/80] fix: per-filter weights in ConvBPDNScalarTV and
 ConvBPDNVectorTV

---
 sporco/admm/cbpdntv.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 6baf958..03b7dc0 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -256,7 +256,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         if self.cri.Cd > 1:
             self.DSf = np.sum(self.DSf, axis=self.cri.axisC, keepdims=True)
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
         else:
@@ -268,7 +268,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         """Updated cached c array when rho changes."""
 
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
 
@@ -287,7 +287,7 @@ class ConvBPDNScalarTV(admm.ADMM):
             np.conj(self.Gf) * YUf[..., 0:-1], axis=-1))
 
         if self.cri.Cd == 1:
-            self.Xf[:] = sl.solvedbi_sm(
+            self.Xf[:] = sl.solvedbd_sm(
                 self.Df, self.rho*self.GHGf + self.rho, b, self.c,
                 self.cri.axisM)
         else:
@@ -442,7 +442,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()[..., 0]).ravel(),
+                             1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2, axis=-1)))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
 
@@ -722,7 +723,8 @@ class ConvBPDNVectorTV(ConvBPDNScalarTV):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()[..., 0]).ravel(),
+                             1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2,
                                     axis=(self.cri.axisM, -1))))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
-- 
2.43.0


From 14d25a7a7c5e7117284c1f83317adb268ef2ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:14 +0000
Subject: [PATCH 24/80] fix: auxiliary variable update and coefficient
 constraints in TV-regularised ConvBPDN

---
 sporco/admm/cbpdntv.py | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 03b7dc0..4dae9c1 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -28,6 +28,21 @@ from sporco.signal import gradient_filters
 __author__ = """Brendt Wohlberg <brendt@ieee.org>"""
 
 
+def _constrain_coef(Y, opt, cri, dshp):
+    """Impose on coefficient array `Y` (in place) the constraints selected
+    by options ``NonNegCoef`` and ``NoBndryCross``.
+    """
+
+    if opt['NonNegCoef']:
+        Y[Y < 0.0] = 0.0
+    if opt['NoBndryCross']:
+        for n in range(0, cri.dimN):
+            if dshp[n] > 1:
+                Y[(slice(None),) * n + (slice(1 - dshp[n], None),)] = 0.0
+    return Y
+
+
+
 class ConvBPDNScalarTV(admm.ADMM):
     r"""
     ADMM algorithm for an extension of Convolutional BPDN including
@@ -316,10 +331,10 @@ class ConvBPDNScalarTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
-                                       axis=-1)
-        self.Y[..., -1] = sp.prox_l1(AXU[..., -1],
-                                     (self.lmbda/self.rho) * self.Wl1)
+        Y0 = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho, axis=-1)
+        Y1 = sp.prox_l1(AXU[..., -1], (self.lmbda/self.rho) * self.Wl1)
+        Y1 = _constrain_coef(Y1, self.opt, self.cri, self.D.shape)
+        self.Y = np.concatenate((Y0, Y1[..., np.newaxis]), axis=-1)
 
 
 
@@ -711,10 +726,11 @@ class ConvBPDNVectorTV(ConvBPDNScalarTV):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
-                                       axis=(self.cri.axisM, -1))
-        self.Y[..., -1] = sp.prox_l1(AXU[..., -1],
-                                     (self.lmbda/self.rho) * self.Wl1)
+        Y0 = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
+                        axis=(self.cri.axisM, -1))
+        Y1 = sp.prox_l1(AXU[..., -1], (self.lmbda/self.rho) * self.Wl1)
+        Y1 = _constrain_coef(Y1, self.opt, self.cri, self.D.shape)
+        self.Y = np.concatenate((Y0, Y1[..., np.newaxis]), axis=-1)
 
 
 
@@ -1103,10 +1119,12 @@ class ConvBPDNRecTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.block_sep0(self.Y)[:] = sp.prox_l1(
-            self.block_sep0(AXU), (self.lmbda/self.rho) * self.Wl1)
-        self.block_sep1(self.Y)[:] = sp.prox_l2(
-            self.block_sep1(AXU), self.mu/self.rho, axis=(self.cri.axisC, -1))
+        Y0 = sp.prox_l1(self.block_sep0(AXU),
+                        (self.lmbda/self.rho) * self.Wl1)
+        Y0 = _constrain_coef(Y0, self.opt, self.cri, self.D.shape)
+        Y1 = sp.prox_l2(self.block_sep1(AXU), self.mu/self.rho,
+                        axis=(self.cri.axisC, -1))
+        self.Y = self.block_cat(Y0, Y1)
 
 
 
-- 
2.43.0


From db4f54086e511c71685720267b4aa43bc056d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:01 +0000
Subject: [PATCH 25/80] fix: initialisation of two-block convolutional solvers
 with option Y0 or HighMemSolve

---
 sporco/admm/cbpdn.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index a30eb2b..6c81ba2 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2018,9 +2018,8 @@ class ConvMinL1InL2Ball(ConvTwoBlockCnstrnt):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            U0 = np.sign(self.block_sep0(self.Y)) / self.rho
-            U1 = self.block_sep1(self.Y) - sl.atleast_nd(self.cri.dimN+3,
-                                                         self.S)
+            U0 = self.block_sep0(self.Y)
+            U1 = np.sign(self.block_sep1(self.Y)) / self.rho
             return self.block_cat(U0, U1)
 
 
@@ -2218,13 +2217,17 @@ class ConvBPDNMaskDcpl(ConvTwoBlockCnstrnt):
         if opt is None:
             opt = ConvBPDNMaskDcpl.Options()
 
-        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
-
+        # Set parameters on which initialisation in parent class depends
+        self.set_dtype(opt, S.dtype)
+        self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
         self.lmbda = self.dtype.type(lmbda)
         if W is None:
             W = np.array([1.0], dtype=self.dtype)
         self.W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
                             dtype=self.dtype)
+
+        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
 
@@ -2651,9 +2654,9 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         if opt is None:
             opt = ConvL1L1Grd.Options()
 
-        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
-                                          dimN=dimN)
-
+        # Set parameters on which initialisation in parent class depends
+        self.set_dtype(opt, S.dtype)
+        self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
         self.mu = self.dtype.type(mu)
         if hasattr(opt['GradWeight'], 'ndim'):
             self.Wgrd = np.asarray(opt['GradWeight'].reshape((1,)*(dimN+2) +
@@ -2665,6 +2668,9 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
                                          self.cri.Nv, dtype=self.dtype)
         self.GHGf = self.Wgrd * GHGf
 
+        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
+                                          dimN=dimN)
+
 
 
     def setdict(self, D=None):
-- 
2.43.0


From e2fc441aa068425586d8b86ebc7689574055485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:00 +0000
Subject: [PATCH 26/80] fix: update cached solver component on rho change in
 ConvElasticNet and ConvBPDNGradReg

---
 sporco/admm/cbpdn.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 6c81ba2..6dbe1f1 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -982,6 +982,15 @@ class ConvElasticNet(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbi_sm_c(self.Df, np.conj(self.Df),
+                                      self.mu + self.rho, self.cri.axisM)
+
+
+
     def obfn_reg(self):
         """Compute regularisation term and contribution to objective
         function.
@@ -1208,6 +1217,16 @@ class ConvBPDNGradReg(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbd_sm_c(self.Df, np.conj(self.Df),
+                                      self.mu * self.GHGf + self.rho,
+                                      self.cri.axisM)
+
+
+
     def obfn_reg(self):
         """Compute regularisation term and contribution to objective
         function.
-- 
2.43.0


From 0501e50cb7498f41cce8407fd21858154b00fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:36 +0000
Subject: [PATCH 27/80] fix: broadcast masks and dictionary change in
 AddMaskSim

---
 sporco/admm/cbpdn.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 6dbe1f1..97b3b8f 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2418,8 +2418,7 @@ class AddMaskSim(object):
         self.inner_ystep()
         # Apply mask to AMS component and insert into Y from inner
         # cbpdn object
-        Yi[np.where(self.W.astype(bool))] = 0.0
-        self.cbpdn.Y[amidx] = Yi
+        self.cbpdn.Y[amidx] = np.where(self.W.astype(bool), 0.0, Yi)
 
 
 
@@ -2459,8 +2458,10 @@ class AddMaskSim(object):
     def setdict(self, D=None):
         """Set dictionary array."""
 
-        Di = np.concatenate((D, sl.atleast_nd(D.ndim, self.imp)),
-                            axis=D.ndim-1)
+        imp = self.imp.reshape(self.imp.shape[0:-1] +
+                               (1,) * (D.ndim - self.imp.ndim) +
+                               self.imp.shape[-1:])
+        Di = np.concatenate((D, imp), axis=D.ndim-1)
         self.cbpdn.setdict(Di)
 
 
-- 
2.43.0


From ca8bbcad0437e75a4b14bf84250f59508b659dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 28/80] fix: MultiDictConvBPDN with multi-channel dictionaries,
 and reconstruct method

---
 sporco/admm/cbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 97b3b8f..a6326a5 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2886,7 +2886,7 @@ class MultiDictConvBPDN(object):
         # Construct single signal array (this is simpler since all
         # members of the signal set are assumed to be of the same
         # size)
-        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN+dimC)
+        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN)
 
         # Construct inner cbpdn object
         self.cbpdn = cbpdnclass(Dm, Sm, *args, **kwargs)
@@ -2933,7 +2933,7 @@ class MultiDictConvBPDN(object):
 
         if X is None:
             X = self.getcoef()
-        Xf = rfftn(X, None, self.cbpdn.cri.axisN)
+        Xf = self.cbpdn.fftn(X, None, self.cbpdn.cri.axisN)
         slc = (slice(None),)*self.dimN + \
               (slice(self.chncs[b], self.chncs[b+1]),)
         Sf = np.sum(self.cbpdn.Df[slc] * Xf, axis=self.cbpdn.cri.axisM)
-- 
2.43.0


From 798f19f18b72a3f523a0ee547286194d30df864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:35 +0000
Subject: [PATCH 29/80] fix: adjoint in ConvBPDNRecTV with a multi-channel
 dictionary

---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 4dae9c1..7c6cfe1 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1300,8 +1300,10 @@ class ConvBPDNRecTV(admm.ADMM):
         """
 
         Y1f = rfftn(Y1, None, axes=self.cri.axisN)
-        return irfftn(np.conj(self.GDf) * Y1f, self.cri.Nv,
-                      self.cri.axisN)
+        GDHY1f = np.conj(self.GDf) * Y1f
+        if self.cri.Cd > 1:
+            GDHY1f = np.sum(GDHY1f, axis=self.cri.axisC, keepdims=True)
+        return irfftn(GDHY1f, self.cri.Nv, self.cri.axisN)
 
 
 
-- 
2.43.0


From 483f3e19a6c71a037fd82cf66331615b4491089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:24 +0000
Subject: [PATCH 30/80] fix: default gradient step parameter in
 pgm.ccmod.ConvCnstrMOD

---
 sporco/pgm/ccmod.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index acefe89..5fc934d 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -211,15 +211,18 @@ class ConvCnstrMOD(pgm.PGMDFT):
         # Infer problem dimensions and set relevant attributes of self
         self.cri = CDU_ConvRepIndexing(dsz, S, dimK=dimK, dimN=dimN)
 
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
+
+        # Set gradient step parameter
+        self.set_attr('L', opt['L'], dval=self.cri.K * 14.0, dtype=self.dtype)
+
         # Call parent class __init__
         xshape = self.cri.shpD
         Nv = self.cri.Nv
         axisN = self.cri.axisN
         super(ConvCnstrMOD, self).__init__(xshape, Nv, axisN, S.dtype, opt)
 
-        # Set gradient step parameter
-        self.set_attr('L', opt['L'], dval=self.cri.K * 14.0, dtype=self.dtype)
-
         # Reshape S to standard layout (Z, i.e. X in cbpdn, is assumed
         # to be taken from cbpdn, and therefore already in standard
         # form). If the dictionary has a single channel but the input
-- 
2.43.0


From 52adaa4e0ddcf233768f25d52e55289fc97fee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:17 +0000
Subject: [PATCH 31/80] fix: mpiutil.grid_search with idle processes and
 integer function values

---
 sporco/mpiutil.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 2e0c3e0..089badf 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -131,14 +131,19 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
     iterlen = afprm.shape[0]
     begin, end = _get_rank_limits(comm, iterlen)
     rankgrid = (afprm[begin:end, :])
-    rankfval = np.asarray(list(map(fn, rankgrid)))
+    rankfval = np.asarray(list(map(fn, rankgrid)), dtype=np.float64)
+    # All processes, including any without grid points assigned to them,
+    # need to take the same path in the consolidation
+    nrfv = comm.allreduce(rankfval.shape[1] if rankfval.ndim > 1 else 0,
+                          op=MPI.MAX)
 
-    if rankfval.ndim == 1:  # Function with a scalar return value
+    if nrfv == 0:  # Function with a scalar return value
         fval = np.empty(afprm.shape[0])
         comm.Allgatherv([rankfval, mpidtype], [fval, mpidtype])
     else:  # Function with a vector return value
         # Vector for gathering all the results
-        fval = np.empty([afprm.shape[0], rankfval.shape[1]])
+        rankfval = rankfval.reshape((-1, nrfv))
+        fval = np.empty([afprm.shape[0], nrfv])
         # Size of values to collect locally
         sizeL = np.array(np.prod(np.array(rankfval.shape)))
         # Number of processes to collect from
-- 
2.43.0


From f01555ef4be41f548acae54c1f6ebd0ec7743538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:47 +0000
Subject: [PATCH 32/80] fix: integer overflow in psnr and bsnr

---
 sporco/metric.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sporco/metric.py b/sporco/metric.py
index 3a3c36c..ef90cdf 100644
--- a/sporco/metric.py
+++ b/sporco/metric.py
@@ -137,7 +137,7 @@ def psnr(vref, vcmp, rng=None):
     """
 
     if rng is None:
-        rng = np.abs(vref.max() - vref.min())
+        rng = np.abs(float(vref.max()) - float(vref.min()))
     dv = (rng + 0.0)**2
     with np.errstate(divide='ignore'):
         rt = dv / mse(vref, vcmp)
@@ -192,7 +192,10 @@ def bsnr(vblr, vnsy):
     """
 
     blrvar = np.var(vblr)
-    nsevar = np.var(vnsy - vblr)
+    # Promote to at least double precision to avoid integer overflow in
+    # computing the difference
+    nsevar = np.var(np.subtract(vnsy, vblr, dtype=np.result_type(
+        vnsy, vblr, np.float64)))
     with np.errstate(divide='ignore'):
         rt = blrvar / nsevar
     return 10.0 * np.log10(rt)
-- 
2.43.0


From b92f681ccbf599ce8f1b54ef7717e6a4c4f5b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 33/80] fix: rndmask with integer, boolean and low precision
 dtypes

---
 sporco/signal.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 193500a..48c7a6a 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -85,10 +85,9 @@ def rndmask(shp, frc, dtype=None):
       Mask image
     """
 
-    msk = np.asarray(np.random.uniform(-1.0, 1.0, shp), dtype=dtype)
-    msk[np.abs(msk) > frc] = 1.0
-    msk[np.abs(msk) < frc] = 0.0
-    return msk
+    msk = np.random.uniform(-1.0, 1.0, shp)
+    return np.asarray(np.abs(msk) > frc, dtype=np.float64 if dtype is None
+                      else dtype)
 
 
 
-- 
2.43.0


From ae6587f606cc39b372b9c52cb376048b5921ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:39 +0000
Subject: [PATCH 34/80] fix: rgb2gray for integer images and arrays of images,
 and grayscale conversion of grayscale images

---
 sporco/signal.py | 8 +++++---
 sporco/util.py   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 48c7a6a..a1edd65 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -105,9 +105,11 @@ def rgb2gray(rgb):
       Grayscale image as Nr x Nc or Nr x Nc x K array
     """
 
-    w = np.array([0.299, 0.587, 0.114], dtype=rgb.dtype)[np.newaxis,
-                                                         np.newaxis]
-    return np.sum(w * rgb, axis=2)
+    isint = np.issubdtype(rgb.dtype, np.integer)
+    w = np.array([0.299, 0.587, 0.114], dtype=np.float64 if isint
+                 else rgb.dtype).reshape((1, 1, 3) + (1,) * (rgb.ndim - 3))
+    gry = np.sum(w * rgb, axis=2)
+    return np.rint(gry).astype(rgb.dtype) if isint else gry
 
 
 
diff --git a/sporco/util.py b/sporco/util.py
index be39ecd..1f4b8c4 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -564,7 +564,7 @@ class ExampleImages(object):
                 img = sn.zoom(img, zoom)
             else:
                 img = sn.zoom(img, (zoom,)*2 + (1,)*(img.ndim-2))
-        if gray:
+        if gray and img.ndim > 2:
             img = signal.rgb2gray(img)
 
         return img
-- 
2.43.0


From 2210659eb86107712846bd200a00da7c452efcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:06 +0000
Subject: [PATCH 35/80] fix: use linear rather than cubic interpolation in
 bilinear_demosaic

---
 sporco/interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/interp.py b/sporco/interp.py
index 0a1e58b..cb55170 100644
--- a/sporco/interp.py
+++ b/sporco/interp.py
@@ -54,7 +54,7 @@ def bilinear_demosaic(img):
     x = range(1, img.shape[0], 2)
     y = range(1, img.shape[1], 2)
     #fi = interp2d(x, y, img[1::2, 1::2])
-    fi = RectBivariateSpline(x, y, img[1::2, 1::2], s=0)
+    fi = RectBivariateSpline(x, y, img[1::2, 1::2], kx=1, ky=1, s=0)
     sr = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     # Interpolate green channel. We can't use `interp2d` here because
@@ -83,7 +83,7 @@ def bilinear_demosaic(img):
     x = range(0, img.shape[0], 2)
     y = range(0, img.shape[1], 2)
     #fi = interp2d(x, y, img[0::2, 0::2])
-    fi = RectBivariateSpline(x, y, img[0::2, 0::2], s=0)
+    fi = RectBivariateSpline(x, y, img[0::2, 0::2], kx=1, ky=1, s=0)
     sb = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     return np.dstack((sr, sg, sb))
-- 
2.43.0


From 7b66294aa788598cd0d93b5f057082dcc84ea75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:02 +0000
Subject: [PATCH 36/80] fix: psnr range for signed integer images (retain
 complex support)

---
 sporco/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/metric.py b/sporco/metric.py
index ef90cdf..bb24021 100644
--- a/sporco/metric.py
+++ b/sporco/metric.py
@@ -137,7 +137,8 @@ def psnr(vref, vcmp, rng=None):
     """
 
     if rng is None:
-        rng = np.abs(float(vref.max()) - float(vref.min()))
+        rng = np.abs(np.subtract(vref.max(), vref.min(), dtype=np.result_type(
+            vref, np.float64)))
     dv = (rng + 0.0)**2
     with np.errstate(divide='ignore'):
         rt = dv / mse(vref, vcmp)
-- 
2.43.0


From 4bd62e13efee9afffaca044ea9448dbf397f86cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:41 +0000
Subject: [PATCH 37/80] fix: retry download when reading of the response times
 out

---
 sporco/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sporco/util.py b/sporco/util.py
index 1f4b8c4..a937608 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -202,6 +202,9 @@ def netgetdata(url, maxtry=3, timeout=10):
             err = e
             if not isinstance(e.reason, socket.timeout):
                 raise
+        except socket.timeout as e:
+            # Time out while reading the response
+            err = urlerror.URLError(e)
     else:
         raise err
 
-- 
2.43.0


From c6d9141060267a6598977daf75234ab4bc74882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:25 +0000
Subject: [PATCH 38/80] fix: tikhonov_filter on an axis with a single sample

---
 sporco/signal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sporco/signal.py b/sporco/signal.py
index a1edd65..b1f7ed9 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -298,6 +298,11 @@ def tikhonov_filter(s, lmbda, npd=16):
     gcv = np.array([-1.0, 1.0]).reshape([1, 2])
     Gr = fft(grv, (s.shape[0] + 2*npd, s.shape[1] + 2*npd), (0, 1))
     Gc = fft(gcv, (s.shape[0] + 2*npd, s.shape[1] + 2*npd), (0, 1))
+    # Circular difference on an axis with a single sample is zero
+    if s.shape[0] + 2*npd == 1:
+        Gr[:] = 0.0
+    if s.shape[1] + 2*npd == 1:
+        Gc[:] = 0.0
     A = 1.0 + lmbda * (np.conj(Gr)*Gr + np.conj(Gc)*Gc).real
     if s.ndim > 2:
         A = A[(slice(None),)*2 + (np.newaxis,)*(s.ndim-2)]
-- 
2.43.0


From ebd4b813a13861e237a26b97029957186325d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:20 +0000
Subject: [PATCH 39/80] fix: l1 weight layout for multi-signal input without a
 channel axis

---
 sporco/cnvrep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index 18b97f5..cd127a1 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -535,7 +535,8 @@ def l1Wshape(W, cri):
                              'the same number of dimensions as input array')
     elif W.ndim == sdim:
         # Weight array has the same number of dimensions as the input array
-        shpW = W.shape + (1,) * (3 - cri.dimC - cri.dimK)
+        shpW = W.shape[0:cri.dimN + cri.dimC] + (1,) * (1 - cri.dimC) + \
+            W.shape[cri.dimN + cri.dimC:] + (1,) * (2 - cri.dimK)
     else:
         # Weight array has more dimensions than the input array
         if W.ndim == cri.dimN + 3:
@@ -544,7 +545,8 @@ def l1Wshape(W, cri):
         else:
             # Assume that the final axis in the input array is the filter
             # index
-            shpW = W.shape[0:-1] + (1,) * (2 - cri.dimC - cri.dimK) + \
+            shpW = W.shape[0:cri.dimN + cri.dimC] + (1,) * (1 - cri.dimC) + \
+                W.shape[cri.dimN + cri.dimC:-1] + (1,) * (1 - cri.dimK) + \
                 W.shape[-1:]
 
     return shpW
-- 
2.43.0


From 6155b415fe1d0f14cec8c02ce298f354409766e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 40/80] fix: pgm masked dictionary update accepts every
 documented mask layout

---
 sporco/pgm/ccmod.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 5fc934d..fef411a 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -14,11 +14,10 @@ import copy
 import numpy as np
 
 from sporco.pgm import pgm
-from sporco.array import atleast_nd
 from sporco.fft import (rfftn, irfftn, empty_aligned, rfftn_empty_aligned,
                         rfl2norm2)
 from sporco.linalg import inner
-from sporco.cnvrep import CDU_ConvRepIndexing, getPcn, bcrop
+from sporco.cnvrep import CDU_ConvRepIndexing, getPcn, bcrop, mskWshape
 
 
 __author__ = """Cristina Garcia-Cardona <cgarciac@lanl.gov>"""
@@ -512,9 +511,9 @@ class ConvCnstrMODMask(ConvCnstrMOD):
         # Infer problem dimensions and set relevant attributes of self
         self.cri = CDU_ConvRepIndexing(dsz, S, dimK=dimK, dimN=dimN)
 
-        # Append singleton dimensions to W if necessary
+        # Convert W to internal shape
         if hasattr(W, 'ndim'):
-            W = atleast_nd(self.cri.dimN + 3, W)
+            W = W.reshape(mskWshape(W, self.cri))
 
         # Reshape W if necessary (see discussion of reshape of S in
         # ccmod base class)
-- 
2.43.0


From 06376d25b25854cf8f2d0b0e85e7119ada30bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:16 +0000
Subject: [PATCH 41/80] fix: pickling of solvers that have recorded iteration
 statistics

---
 sporco/common.py          | 39 +++++++++++++++++++++++++++++++++++++--
 sporco/dictlrn/dictlrn.py | 21 +++++++++++++++++++--
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/sporco/common.py b/sporco/common.py
index 9a9f0b7..47453cc 100644
--- a/sporco/common.py
+++ b/sporco/common.py
@@ -96,6 +96,42 @@ def _fix_dynamic_class_lookup(cls, pstfx):
 
 
 
+_itstat_types = {}
+
+
+def itstat_type(fields):
+    """Construct a named tuple type for recording iteration statistics.
+    Unlike those of other dynamically generated named tuple types,
+    instances of this type can be pickled.
+
+    Parameters
+    ----------
+    fields : list or tuple of strings
+      Field names
+
+    Returns
+    -------
+    cls : class
+      Named tuple class
+    """
+
+    fields = tuple(fields)
+    if fields not in _itstat_types:
+        cls = collections.namedtuple('IterationStats', fields)
+        cls.__reduce__ = lambda self: (_itstat_make,
+                                       (self._fields, tuple(self)))
+        _itstat_types[fields] = cls
+    return _itstat_types[fields]
+
+
+
+def _itstat_make(fields, values):
+    """Construct an iteration statistics named tuple when unpickling."""
+
+    return itstat_type(fields)._make(values)
+
+
+
 class _IterSolver_Meta(type):
     """Metaclass for iterative solver classes that handles
     intialisation of IterationStats namedtuple and applies
@@ -108,8 +144,7 @@ class _IterSolver_Meta(type):
     def __init__(cls, *args):
 
         # Initialise named tuple type for recording iteration statistics
-        cls.IterationStats = collections.namedtuple('IterationStats',
-                                                    cls.itstat_fields())
+        cls.IterationStats = itstat_type(cls.itstat_fields())
         # Apply _fix_nested_class_lookup function to class after creation
         _fix_nested_class_lookup(cls, nstnm='Options')
 
diff --git a/sporco/dictlrn/dictlrn.py b/sporco/dictlrn/dictlrn.py
index 6f27a3a..aff3f62 100644
--- a/sporco/dictlrn/dictlrn.py
+++ b/sporco/dictlrn/dictlrn.py
@@ -14,7 +14,6 @@ from future.utils import with_metaclass
 from builtins import range
 from builtins import object
 
-import collections
 
 from sporco import cdict
 from sporco import common
@@ -66,7 +65,7 @@ class IterStatsConfig(object):
           formats that depart from the standard format
         """
 
-        self.IterationStats = collections.namedtuple('IterationStats', isfld)
+        self.IterationStats = common.itstat_type(isfld)
         self.isxmap = isxmap
         self.isdmap = isdmap
         self.evlmap = evlmap
@@ -80,6 +79,24 @@ class IterStatsConfig(object):
 
 
 
+    def __getstate__(self):
+        """Get object state for pickling."""
+
+        # A dynamically generated class cannot be pickled
+        state = self.__dict__.copy()
+        state['IterationStats'] = self.IterationStats._fields
+        return state
+
+
+
+    def __setstate__(self, state):
+        """Restore object state on unpickling."""
+
+        self.__dict__.update(state)
+        self.IterationStats = common.itstat_type(state['IterationStats'])
+
+
+
     def iterstats(self, j, t, isx, isd, evl):
         """Construct IterationStats namedtuple from X step and D step
         IterationStats namedtuples.
-- 
2.43.0


From 8e900db5958eb5c557d26c5339275c16c293fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:47 +0000
Subject: [PATCH 42/80] fix: ParConvBPDN with a multi-channel dictionary

---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 25afe60..f48dab0 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -151,7 +151,7 @@ def par_xstep(i):
                             mp_cache[i], axis=mp_axisM)
     else:
         b = sl.inner(np.conj(mp_Df[mp_grp[i]:mp_grp[i+1]]), YU0f,
-                     axis=mp_C) + mp_alpha**2*YU1f
+                     axis=mp_axisC) + mp_alpha**2*YU1f
         Xf = sl.solvemdbi_ism(mp_Df[mp_grp[i]:mp_grp[i+1]], mp_alpha**2, b,
                               mp_axisM, mp_axisC)
     mp_X[mp_grp[i]:mp_grp[i+1]] = irfftn(Xf, mp_Nv,
-- 
2.43.0


From ca9be035fab99dfae8d716c8ee6cd13002be991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:16 +0000
Subject: [PATCH 43/80] fix: ParConvBPDN initialisation with Y0, Y1, U0, U1
 options and coefficient array shape

---
 sporco/admm/parcbpdn.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f48dab0..af799ae 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -639,7 +639,8 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_Df
         init_mpraw('mp_Df', np.moveaxis(self.Df, self.cri.axisM, mp_axisM))
         global mp_X
-        init_mpraw('mp_X', np.moveaxis(self.Y, self.cri.axisM, mp_axisM))
+        init_mpraw('mp_X', np.moveaxis(np.zeros(self.cri.shpX, dtype=self.dtype),
+                                       self.cri.axisM, mp_axisM))
         shp_X = list(mp_X.shape)
         global mp_Xnr
         mp_Xnr = mpraw_as_np(mp_X.shape, mp_X.dtype)
@@ -648,7 +649,7 @@ class ParConvBPDN(GenericConvBPDN):
         shp_Y0[0] = self.ngrp
         shp_Y0[mp_axisC] = mp_C
         if self.opt['Y0'] is not None:
-            init_mpraw('Y0', np.moveaxis(
+            init_mpraw('mp_Y0', np.moveaxis(
                 self.opt['Y0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -657,7 +658,7 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y0old = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_Y1
         if self.opt['Y1'] is not None:
-            init_mpraw('Y1', np.moveaxis(
+            init_mpraw('mp_Y1', np.moveaxis(
                 self.opt['Y1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -666,14 +667,14 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y1old = mpraw_as_np(shp_X, mp_X.dtype)
         global mp_U0
         if self.opt['U0'] is not None:
-            init_mpraw('U0', np.moveaxis(
+            init_mpraw('mp_U0', np.moveaxis(
                 self.opt['U0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
             mp_U0 = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_U1
         if self.opt['U1'] is not None:
-            init_mpraw('U1', np.moveaxis(
+            init_mpraw('mp_U1', np.moveaxis(
                 self.opt['U1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
-- 
2.43.0


From cce0fcb1c130b23000645f92e754feb795b296cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:44 +0000
Subject: [PATCH 44/80] fix: ParConvBPDN iteration comparison by value instead
 of identity

---
 sporco/admm/parcbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index af799ae..d91d4be 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -773,10 +773,10 @@ class ParConvBPDN(GenericConvBPDN):
             mp_Y1old[:] = np.copy(mp_Y1)
 
             # Perform the variable updates.
-            if self.k is first_iteration:
+            if self.k == first_iteration:
                 self.distribute(par_initial_stepgrp, mp_ngrp)
             y0astep()
-            if self.k is last_iteration:
+            if self.k == last_iteration:
                 self.distribute(par_final_stepgrp, mp_ngrp)
             else:
                 self.distribute(par_stepgrp, mp_ngrp)
-- 
2.43.0


From ad4997f08c0a3931981925b5ce4279e0ae0f5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:14 +0000
Subject: [PATCH 45/80] fix: ParConvBPDN objects do not share state and can be
 pickled or copied

---
 sporco/admm/parcbpdn.py | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index d91d4be..bbe0680 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -129,6 +129,13 @@ def init_mpraw(mpv, npv):
 
 
 
+def _get_mpvar():
+    """Get a dict of the current values of the module variables."""
+
+    return {k: v for k, v in globals().items() if k.startswith('mp_')}
+
+
+
 def par_xstep(i):
     r"""Minimise Augmented Lagrangian with respect to
     :math:`\mathbf{x}_{G_i}`, one of the disjoint problems of optimizing
@@ -725,6 +732,10 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_nrmu
         mp_nrmu = mpraw_as_np((self.ngrp,), mp_X.dtype)
 
+        # Record the module variables of this object so that they can be
+        # reinstated if another object is initialised before it is solved
+        self.mpvar = _get_mpvar()
+
 
 
     def solve(self):
@@ -758,6 +769,10 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_Y0old
         global mp_Y1old
 
+        # Reinstate the module variables of this object
+        mpvar_prev = _get_mpvar()
+        globals().update(self.mpvar)
+
         self.init_pool()
 
         fmtstr, nsep = self.display_start()
@@ -829,15 +844,37 @@ class ParConvBPDN(GenericConvBPDN):
         # Print final separator string if Verbose option enabled
         self.display_end(nsep)
 
-        self.Y = np.moveaxis(mp_Y1, mp_axisM, self.cri.axisM)
-        self.X = np.moveaxis(mp_X, mp_axisM, self.cri.axisM)
+        # Copies are required since the shared memory arrays are modified
+        # by any subsequent call to this method
+        self.Y = np.moveaxis(mp_Y1, mp_axisM, self.cri.axisM).copy()
+        self.X = np.moveaxis(mp_X, mp_axisM, self.cri.axisM).copy()
 
         self.terminate_pool()
 
+        # Restore the module variables of any object that was active when
+        # this method was called
+        globals().update(mpvar_prev)
+
         return self.getmin()
 
 
 
+    def __setstate__(self, state):
+        """Restore object state on unpickling or copying."""
+
+        self.__dict__.update(state)
+        # Arrays need to be moved to shared memory
+        mpvar = {}
+        for k, v in self.mpvar.items():
+            if isinstance(v, np.ndarray):
+                mpvar[k] = mpraw_as_np(v.shape, v.dtype)
+                mpvar[k][:] = v
+            else:
+                mpvar[k] = v
+        self.mpvar = mpvar
+
+
+
     def init_pool(self):
         """Initialize multiprocessing pool if necessary."""
 
-- 
2.43.0


From dd23498613e06ffef99eac14a95f501a01c0d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:14 +0000
Subject: [PATCH 46/80] fix: online dictionary learning does not alter
 dictionaries already returned

---
 sporco/dictlrn/onlinecdl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index f17a802..b77aa28 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -329,8 +329,8 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         self.G = irfftn(self.Gf, self.cri.Nv, self.cri.axisN)
 
         # Eval proximal operator
-        self.Dprv[:] = self.D
-        self.D[:] = self.Pcn(self.G)
+        self.Dprv = self.D
+        self.D = np.asarray(self.Pcn(self.G), dtype=self.dtype)
 
 
 
@@ -597,5 +597,5 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
         self.G = irfftn(self.Gf, self.cri.Nv, self.cri.axisN)
 
         # Eval proximal operator
-        self.Dprv[:] = self.D
-        self.D[:] = self.Pcn(self.G)
+        self.Dprv = self.D
+        self.D = np.asarray(self.Pcn(self.G), dtype=self.dtype)
-- 
2.43.0


From 628bf867000002dc23197872a582f6d6621f8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:10 +0000
Subject: [PATCH 47/80] fix: online dictionary update for multi-channel signals
 with a single-channel dictionary and singleton axes

---
 sporco/dictlrn/onlinecdl.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index b77aa28..e878ea8 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -278,7 +278,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDN(self.D.squeeze(), S, lmbda,
+            xstep = cbpdn.ConvBPDN(self._extD(), S, lmbda,
                                    self.opt['CBPDN'], dimK=dimK,
                                    dimN=self.cri.dimN)
             xstep.solve()
@@ -288,20 +288,18 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
 
 
 
+    def _extD(self):
+        """Get dictionary in external representation."""
+
+        cshp = (self.cri.Cd,) if self.cri.dimCd == 1 else ()
+        return self.D.reshape(self.D.shape[0:self.cri.dimN] + cshp +
+                              (self.cri.M,))
+
+
+
     def setcoef(self, Z):
         """Set coefficient array."""
 
-        # If the dictionary has a single channel but the input (and
-        # therefore also the coefficient map array) has multiple
-        # channels, the channel index and multiple image index have
-        # the same behaviour in the dictionary update equation: the
-        # simplest way to handle this is to just reshape so that the
-        # channels also appear on the multiple image index.
-        if self.cri.Cd == 1 and self.cri.C > 1:
-            Z = Z.reshape(self.cri.Nv + (1,) + (self.cri.Cx*self.cri.K,) +
-                          (self.cri.M,))
-            if Z.shape != self.Z.shape:
-                self.Z = empty_aligned(Z.shape, self.dtype)
         self.Z[:] = np.asarray(Z, dtype=self.dtype)
         self.Zf = rfftn(self.Z, self.cri.Nv, self.cri.axisN)
 
@@ -560,7 +558,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDNMaskDcpl(self.D.squeeze(), S, lmbda, W,
+            xstep = cbpdn.ConvBPDNMaskDcpl(self._extD(), S, lmbda, W,
                                            self.opt['CBPDN'], dimK=dimK,
                                            dimN=self.cri.dimN)
             xstep.solve()
-- 
2.43.0


From 7c0d70e4925c476c45a432b820cd824f21033bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:40 +0000
Subject: [PATCH 48/80] fix: online dictionary learning with a varying number
 of signals or channels

---
 sporco/dictlrn/onlinecdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index e878ea8..e5d8c21 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -245,9 +245,9 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """Initalise variables required for sparse coding and dictionary
         update for training data `S`."""
 
-        Nv = S.shape[0:self.dimN]
-        if self.cri is None or Nv != self.cri.Nv:
-            self.cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        if self.cri is None or cri.shpS != self.cri.shpS:
+            self.cri = cri
             if self.opt['CUDA_CBPDN']:
                 if self.cri.Cd > 1 or self.cri.Cx > 1:
                     raise ValueError('CUDA CBPDN solver can only be used for '
-- 
2.43.0


From 9d9c802738ebbb5ba7fe949a2b06a7a5eaed5f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:12 +0000
Subject: [PATCH 49/80] fix: masked online dictionary learning with default
 options

---
 sporco/dictlrn/onlinecdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index e5d8c21..aff32f0 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -152,7 +152,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """
 
         if opt is None:
-            opt = OnlineConvBPDNDictLearn.Options()
+            opt = type(self).Options()
         if not isinstance(opt, OnlineConvBPDNDictLearn.Options):
             raise TypeError('Parameter opt must be an instance of '
                             'OnlineConvBPDNDictLearn.Options')
-- 
2.43.0


From 8884de9fcb9c13bf2bca1117073da79f6ca86dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:23 +0000
Subject: [PATCH 50/80] fix: masked online dictionary update gradient for
 weighted masks

---
 sporco/dictlrn/onlinecdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index aff32f0..3a70132 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -578,7 +578,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
         Ryf = inner(self.Zf, self.Df, axis=self.cri.axisM) - self.Sf
         # Transform to spatial domain, apply mask, and transform back to
         # frequency domain
-        Ryf[:] = rfftn(W * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
+        Ryf[:] = rfftn(W**2 * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
                           None, self.cri.axisN)
         # Compute gradient
         gradf = inner(np.conj(self.Zf), Ryf, axis=self.cri.axisK)
-- 
2.43.0


From e84ec043666505cb08538ec007806a931cf6b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:55 +0000
Subject: [PATCH 51/80] fix: default options of joint convolutional sparse
 coding solvers

---
 sporco/admm/cbpdn.py | 2 +-
 sporco/admm/pdcsc.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index a6326a5..ad54974 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -777,7 +777,7 @@ class ConvBPDNJoint(ConvBPDN):
         """
 
         if opt is None:
-            opt = ConvBPDN.Options()
+            opt = ConvBPDNJoint.Options()
         super(ConvBPDNJoint, self).__init__(D, S, lmbda, opt, dimK=dimK,
                                             dimN=dimN)
         self.mu = self.dtype.type(mu)
diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index dbd2ffb..2733e7a 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -675,6 +675,8 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
           Number of spatial dimensions
         """
 
+        if opt is None:
+            opt = ConvProdDictL1L1GrdJoint.Options()
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
                                             opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
-- 
2.43.0


From 59faa231ae582a9e071ddb1e7b72ae7d1a150bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 52/80] fix: l2,1 norm weights with spatial or internal layout

---
 sporco/admm/cbpdn.py | 5 ++++-
 sporco/admm/pdcsc.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index ad54974..7075bae 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -782,6 +782,8 @@ class ConvBPDNJoint(ConvBPDN):
                                             dimN=dimN)
         self.mu = self.dtype.type(mu)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
+        if self.wl21.ndim == len(self.cri.shpX) - 1:
+            self.wl21 = np.expand_dims(self.wl21, self.cri.axisC)
 
 
 
@@ -809,7 +811,8 @@ class ConvBPDNJoint(ConvBPDN):
 
         rl1 = np.linalg.norm((self.wl1 * self.obfn_gvar()).ravel(), 1)
         rl21 = np.sum(self.wl21 * np.sqrt(np.sum(self.obfn_gvar()**2,
-                                                 axis=self.cri.axisC)))
+                                                 axis=self.cri.axisC,
+                                                 keepdims=True)))
         return (self.lmbda*rl1 + self.mu*rl21, rl1, rl21)
 
 
diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 2733e7a..28c518a 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -680,6 +680,8 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
                                             opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
+        if self.wl21.ndim == len(self.cri.shpX) - 1:
+            self.wl21 = np.expand_dims(self.wl21, self.cri.axisC)
 
 
 
@@ -705,4 +707,5 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
         function.
         """
 
-        return np.sum(self.wl21 * np.sqrt(np.sum(Y1**2, axis=self.cri.axisC)))
+        return np.sum(self.wl21 * np.sqrt(np.sum(Y1**2, axis=self.cri.axisC,
+                                                 keepdims=True)))
-- 
2.43.0


From d082aabd2757ef8b5595357a3f5503571bbc6dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:00 +0000
Subject: [PATCH 53/80] fix: product dictionary solver setdict with only the
 standard dictionary

---
 sporco/admm/pdcsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 28c518a..a8ac86c 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -116,8 +116,8 @@ class ConvProdDictBPDN(cbpdn.ConvBPDN):
         if D is not None or not hasattr(self, 'Df'):
             self.Df = rfftn(self.D, self.cri.Nv, self.cri.axisN)
             self.DSf = np.conj(self.Df) * self.Sf
-            self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
-                             axis=self.cri.axisC)
+        self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
+                         axis=self.cri.axisC)
 
         # Fold square root of Gamma into the dictionary array to enable
         # use of the solvedbi_sm solver
-- 
2.43.0


From 4ee271bbffc51b9ac042e523e211e87097eedaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:33 +0000
Subject: [PATCH 54/80] fix: dual residual of product dictionary solver with
 gradient regularisation

---
 sporco/admm/pdcsc.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index a8ac86c..e873b17 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -566,22 +566,6 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
 
 
 
-    # NB: It's not yet clear whether it's better to use rsdl_s and
-    # rsdl_sn definitions below, or those inherited from cbpdn.ConvL1L1Grd
-    def rsdl_s(self, Yprev, Y):
-        """Compute dual residual vector."""
-
-        return self.rho * self.cnst_AT(self.U)
-
-
-
-    def rsdl_sn(self, U):
-        """Compute dual residual normalisation term."""
-
-        return self.rho * np.linalg.norm(U)
-
-
-
 
 
 class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
-- 
2.43.0


From 87f868ac87dce290ce84a7bdb418b1c9c8fa30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 55/80] fix: product dictionary solvers with default dimK

---
 sporco/admm/pdcsc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index e873b17..2b29003 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -80,6 +80,10 @@ class ConvProdDictBPDN(cbpdn.ConvBPDN):
         if opt is None:
             opt = ConvProdDictBPDN.Options()
 
+        # If B has multiple rows, S must have a channel axis
+        if dimK is None and S.ndim == dimN + 1 and B.shape[0] > 1:
+            dimK = 0
+
         # Since D operates on X B^T, the number of channels in X is equal
         # to the number of columns in B rather than the number of channels
         # in S. Here we initialise the object representing the problem
@@ -370,7 +374,9 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         # a N x M_B matrix, so that it initialises arrays with the correct
         # number of channels. This is the first of many nasty hacks in
         # this class!
-        scidx = -2 if dimK == 1 else -1
+        if dimK is None and S.ndim == dimN + 1 and B.shape[0] > 1:
+            dimK = 0
+        scidx = -2 if S.ndim == dimN + 2 else -1
         SB = dot(B.T, S, axis=scidx)
         super(ConvProdDictL1L1Grd, self).__init__(
             D, SB, lmbda, mu, W=W, opt=opt, dimK=dimK, dimN=dimN)
-- 
2.43.0


From 6e6f604b10386833951b639994cd982ca1cd31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:04 +0000
Subject: [PATCH 56/80] fix: AddMaskSim with an explicit singleton dictionary
 channel axis

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7075bae..c880ee2 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2370,7 +2370,7 @@ class AddMaskSim(object):
         # Construct impulse filter (or filters for the multi-channel
         # case) and append to dictionary
         if self.cri.Cd == 1:
-            self.imp = np.zeros(D.shape[0:dimN] + (1,))
+            self.imp = np.zeros(D.shape[0:-1] + (1,))
             self.imp[(0,)*dimN] = 1.0
         else:
             self.imp = np.zeros(D.shape[0:dimN] + (self.cri.Cd,)*2)
-- 
2.43.0


From dcce5873ae4e695a08949fa848aa6f7503e15a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:11 +0000
Subject: [PATCH 57/80] fix: SplineL1 with option Y0

---
 sporco/admm/spline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/spline.py b/sporco/admm/spline.py
index 6eb2df5..ec38b4e 100644
--- a/sporco/admm/spline.py
+++ b/sporco/admm/spline.py
@@ -154,11 +154,13 @@ class SplineL1(admm.ADMM):
         self.set_attr('rho', opt['rho'], dval=(2.0*self.lmbda + 0.1),
                       dtype=self.dtype)
 
+        # Required by method uinit, called by the base class initialiser
+        self.Wdf = np.asarray(opt['DFidWeight'], dtype=self.dtype)
+
         Nx = S.size
         super(SplineL1, self).__init__(Nx, S.shape, S.shape, S.dtype, opt)
 
         self.S = np.asarray(S, dtype=self.dtype)
-        self.Wdf = np.asarray(self.opt['DFidWeight'], dtype=self.dtype)
 
         ashp = [1,] * S.ndim
         for ax in axes:
-- 
2.43.0


From 133c41ef348dbbcddf00f322a5de67638f85416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:42 +0000
Subject: [PATCH 58/80] fix: TV denoising on an axis of unit length

---
 sporco/admm/tvl1.py | 4 +++-
 sporco/admm/tvl2.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 0beba9a..044a034 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -382,7 +382,9 @@ class TVL1Denoise(admm.ADMM):
             sz[ax] = self.S.shape[ax]
         lcw = 2*len(self.axes)*np.ones(sz, dtype=self.dtype)
         for ax in self.axes:
-            lcw[(slice(None),)*ax + ([0, -1],)] -= 1.0
+            # First and last sample coincide on an axis of unit length
+            lcw[(slice(None),)*ax + (0,)] -= 1.0
+            lcw[(slice(None),)*ax + (-1,)] -= 1.0
         return lcw
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 071a312..0ef4120 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -355,7 +355,9 @@ class TVL2Denoise(admm.ADMM):
             sz[ax] = self.S.shape[ax]
         lcw = 2*len(self.axes)*np.ones(sz, dtype=self.dtype)
         for ax in self.axes:
-            lcw[(slice(None),)*ax + ([0, -1],)] -= 1.0
+            # First and last sample coincide on an axis of unit length
+            lcw[(slice(None),)*ax + (0,)] -= 1.0
+            lcw[(slice(None),)*ax + (-1,)] -= 1.0
         return lcw
 
 
-- 
2.43.0


From 684cdbca418ec386917de6a49b3d33a34bf8af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:37 +0000
Subject: [PATCH 59/80] fix: TV term weight arrays with vector TV

---
 sporco/admm/tvl1.py | 12 ++++++------
 sporco/admm/tvl2.py | 10 ++++++----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 044a034..e019aeb 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -210,7 +210,7 @@ class TVL1Denoise(admm.ADMM):
         self.lcw = self.LaplaceCentreWeight()
         self.Wtv = np.asarray(self.opt['TVWeight'],
                               dtype=real_dtype(self.dtype))
-        if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
+        if self.Wtv.ndim > 0:
             self.Wtvna = self.Wtv[..., np.newaxis]
         else:
             self.Wtvna = self.Wtv
@@ -300,8 +300,8 @@ class TVL1Denoise(admm.ADMM):
         else:
             gvr = np.abs(self.obfn_gvar())
         dfd = np.sum(np.abs(self.Wdf * gvr[..., -1]))
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gvr[..., 0:-1]**2,
-                                               axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(
+            gvr[..., 0:-1]**2, axis=self.saxes, keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
@@ -600,7 +600,7 @@ class TVL1Deconv(admm.ADMM):
                               dtype=real_dtype(self.dtype))
         self.Wtv = np.asarray(self.opt['TVWeight'],
                               dtype=real_dtype(self.dtype))
-        if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
+        if self.Wtv.ndim > 0:
             self.Wtvna = self.Wtv[..., np.newaxis]
         else:
             self.Wtvna = self.Wtv
@@ -687,8 +687,8 @@ class TVL1Deconv(admm.ADMM):
         else:
             gvr = np.abs(self.obfn_gvar())
         dfd = np.sum(self.Wdf * np.abs(gvr[..., -1]))
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gvr[..., 0:-1]**2,
-                                               axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(
+            gvr[..., 0:-1]**2, axis=self.saxes, keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 0ef4120..76fe55f 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -210,7 +210,7 @@ class TVL2Denoise(admm.ADMM):
         self.lcw = self.LaplaceCentreWeight()
         self.Wtv = np.asarray(self.opt['TVWeight'],
                               dtype=real_dtype(self.dtype))
-        if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
+        if self.Wtv.ndim > 0:
             self.Wtvna = self.Wtv[..., np.newaxis]
         else:
             self.Wtvna = self.Wtv
@@ -291,7 +291,8 @@ class TVL2Denoise(admm.ADMM):
             gv = self.obfn_gvar()
         else:
             gv = np.abs(self.obfn_gvar())
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gv**2, axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(
+            gv**2, axis=self.saxes, keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
@@ -569,7 +570,7 @@ class TVL2Deconv(admm.ADMM):
 
         self.Wtv = np.asarray(self.opt['TVWeight'],
                               dtype=real_dtype(self.dtype))
-        if hasattr(self.Wtv, 'ndim') and self.Wtv.ndim == S.ndim:
+        if self.Wtv.ndim > 0:
             self.Wtvna = self.Wtv[..., np.newaxis]
         else:
             self.Wtvna = self.Wtv
@@ -649,7 +650,8 @@ class TVL2Deconv(admm.ADMM):
             gv = self.obfn_gvar()
         else:
             gv = np.abs(self.obfn_gvar())
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gv**2, axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(
+            gv**2, axis=self.saxes, keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
-- 
2.43.0


From 53773fb817666c3ce5ea16e2afb5e64d87f28978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 60/80] fix: rescale both dual variables of masked consensus
 dictionary update

---
 sporco/admm/ccmodmd.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index b078e75..d712b59 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -967,6 +967,18 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
 
 
 
+    def update_rho(self, k, r, s):
+        """The parent class method rescales only the scaled dual variable
+        of the dictionary constraint when the penalty parameter changes:
+        apply the same scaling to that of the mask decoupling constraint.
+        """
+
+        rho = self.rho
+        super(ConvCnstrMODMaskDcpl_Consensus, self).update_rho(k, r, s)
+        self.U1 *= rho / self.rho
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W \left( \sum_m
         \mathbf{d}_m * \mathbf{x}_m - \mathbf{s} \right) \|_2^2`.
-- 
2.43.0


From 2cbc2ef6b9066b58b46556190005bad0ce99ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:09 +0000
Subject: [PATCH 61/80] fix: step size policies with a zero gradient or zero
 change

---
 sporco/pgm/stepsize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sporco/pgm/stepsize.py b/sporco/pgm/stepsize.py
index d5a6a0c..6a72ff2 100644
--- a/sporco/pgm/stepsize.py
+++ b/sporco/pgm/stepsize.py
@@ -79,6 +79,10 @@ class StepSizePolicyCauchy(StepSizePolicyBase):
         den = np.sum(np.real(np.conj(grad) * grad))
         num = np.sum(np.real(np.conj(grad) * solverobj.hessian_f(grad)))
 
+        # Zero gradient: step size is undefined
+        if den == 0.0:
+            return solverobj.L
+
         return num / den
 
 
@@ -138,6 +142,10 @@ class StepSizePolicyBB(StepSizePolicyBase):
         den = np.sum(np.real(np.conj(dx) * dg))
         num = np.sum(np.real(np.conj(dg) * dg))
 
+        # No change in solution or gradient: step size is undefined
+        if num == 0.0 or den == 0.0:
+            return solverobj.L
+
         L = num / den
         if L < 0.:
             L = solverobj.L
-- 
2.43.0


From 57233650551fa7974648ded9395547bc2f917dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:28 +0000
Subject: [PATCH 62/80] fix: monotone PGM after replacing dictionary or
 coefficients

---
 sporco/pgm/bpdn.py  | 2 ++
 sporco/pgm/cbpdn.py | 2 ++
 sporco/pgm/ccmod.py | 2 ++
 sporco/pgm/cmod.py  | 2 ++
 sporco/pgm/pgm.py   | 4 ++--
 5 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index ef99126..0d3eb1b 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -163,6 +163,8 @@ class BPDN(pgm.PGM):
         """Set dictionary array."""
 
         self.D = np.asarray(D, dtype=self.dtype)
+        # Functional value of the current iterate needs to be recomputed
+        self.objfn = None
 
 
 
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 4bd72dd..c6c8c0f 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -250,6 +250,8 @@ class ConvBPDN(pgm.PGMDFT):
         if D is not None:
             self.D = np.asarray(D, dtype=self.dtype)
         self.Df = rfftn(self.D, self.cri.Nv, self.cri.axisN)
+        # Functional value of the current iterate needs to be recomputed
+        self.objfn = None
 
 
 
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index fef411a..1cab3ab 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -279,6 +279,8 @@ class ConvCnstrMOD(pgm.PGMDFT):
         self.Z = np.asarray(Z, dtype=self.dtype)
 
         self.Zf = rfftn(self.Z, self.cri.Nv, self.cri.axisN)
+        # Functional value of the current iterate needs to be recomputed
+        self.objfn = None
 
 
 
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index 2178d73..2ce85ac 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -156,6 +156,8 @@ class CnstrMOD(pgm.PGM):
         """Set coefficient array."""
 
         self.Z = np.asarray(Z, dtype=self.dtype)
+        # Functional value of the current iterate needs to be recomputed
+        self.objfn = None
 
 
 
diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index a7231c9..1e6b099 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -496,7 +496,7 @@ class PGM(IterativeSolver):
             self.Yprv = self.Y.copy()
 
         if self.opt['Monotone']:
-            if self.k == 0:
+            if self.k == 0 or self.objfn is None:
                 self.objfn = self.eval_objfn()
             self.objfn_prev = self.objfn
 
@@ -851,7 +851,7 @@ class PGMDFT(PGM):
 
         if self.opt['Monotone']:
             self.Xprv = self.X.copy()
-            if self.k == 0:
+            if self.k == 0 or self.objfn is None:
                 self.objfn = self.eval_objfn()
             self.objfn_prev = self.objfn
 
-- 
2.43.0


From 7a4edc6fbc195e8a321c174ea0a92c3babc2d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:37 +0000
Subject: [PATCH 63/80] fix: weighted consensus residual normalisation

---
 sporco/admm/admm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/admm.py b/sporco/admm/admm.py
index babe48c..c8ab2e3 100644
--- a/sporco/admm/admm.py
+++ b/sporco/admm/admm.py
@@ -1862,11 +1862,14 @@ class WeightedADMMConsensus(ADMMConsensus):
         # block replication introduced by multiplication by the B
         # including the alpha weighting factors
         return max((np.linalg.norm(np.sqrt(self.alphaxd) * AX),
-                    np.sqrt(np.sum(self.alpha**2)) * np.linalg.norm(Y)))
+                    np.sqrt(np.sum(self.alpha)) * np.linalg.norm(Y)))
 
 
 
     def rsdl_sn(self, U):
         """Compute dual residual normalisation term."""
 
-        return self.rho * np.linalg.norm(U)
+        # The dual residual normalisation term is rho ||A^T u^(k)||_2,
+        # and both A and the scaled dual variable corresponding to U
+        # include factors sqrt(alpha)
+        return self.rho * np.linalg.norm(self.alphaxd * U)
-- 
2.43.0


From 571b4cbb5f21438da60dcc57d7a31c2a53bc54cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:06 +0000
Subject: [PATCH 64/80] fix: backtracking and step sizes of DFT-domain proximal
 gradient use the full spectrum

---
 sporco/pgm/backtrack.py |  4 ++--
 sporco/pgm/cbpdn.py     |  4 ++--
 sporco/pgm/ccmod.py     |  4 ++--
 sporco/pgm/pgm.py       | 28 +++++++++++++++++++++++++++-
 sporco/pgm/stepsize.py  |  9 +++++----
 5 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/sporco/pgm/backtrack.py b/sporco/pgm/backtrack.py
index caadda8..0e503fd 100644
--- a/sporco/pgm/backtrack.py
+++ b/sporco/pgm/backtrack.py
@@ -100,7 +100,7 @@ class BacktrackStandard(BacktrackBase):
             Dxy = solverobj.eval_Dxy()
             Q = solverobj.obfn_f(solverobj.var_y()) + \
                 solverobj.eval_linear_approx(Dxy, gradY) + \
-                (solverobj.L / 2.) * np.linalg.norm(Dxy.flatten(), 2)**2
+                (solverobj.L / 2.) * solverobj.inner_product(Dxy, Dxy)
 
             if f <= Q:
                 linesearch = 0
@@ -191,7 +191,7 @@ class BacktrackRobust(BacktrackBase):
             Dxy = solverobj.eval_Dxy()
             Q = solverobj.obfn_f(solverobj.var_y()) + \
                 solverobj.eval_linear_approx(Dxy, gradY) + \
-                (solverobj.L / 2.) * np.linalg.norm(Dxy.flatten(), 2)**2
+                (solverobj.L / 2.) * solverobj.inner_product(Dxy, Dxy)
 
             if f <= Q:
                 linesearch = 0
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index c6c8c0f..c614e88 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -370,7 +370,7 @@ class ConvBPDN(pgm.PGMDFT):
             Xf = self.Xf
 
         Rf = self.eval_Rf(Xf)
-        return 0.5 * np.linalg.norm(Rf.flatten(), 2)**2
+        return 0.5 * self.inner_product(Rf, Rf)
 
 
 
@@ -522,4 +522,4 @@ class ConvBPDNMask(ConvBPDN):
         R = irfftn(Rf, self.cri.Nv, self.cri.axisN)
         WRf = rfftn(self.W * R, self.cri.Nv, self.cri.axisN)
 
-        return 0.5 * np.linalg.norm(WRf.flatten(), 2)**2
+        return 0.5 * self.inner_product(WRf, WRf)
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 1cab3ab..b55d31c 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -391,7 +391,7 @@ class ConvCnstrMOD(pgm.PGMDFT):
             Xf = self.Xf
 
         Rf = self.eval_Rf(Xf)
-        return 0.5 * np.linalg.norm(Rf.flatten(), 2)**2
+        return 0.5 * self.inner_product(Rf, Rf)
 
 
 
@@ -622,4 +622,4 @@ class ConvCnstrMODMask(ConvCnstrMOD):
         R = irfftn(Rf, self.cri.Nv, self.cri.axisN)
         WRf = rfftn(self.W * R, self.cri.Nv, self.cri.axisN)
 
-        return 0.5 * np.linalg.norm(WRf.flatten(), 2)**2
+        return 0.5 * self.inner_product(WRf, WRf)
diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 1e6b099..9394cdc 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -447,6 +447,15 @@ class PGM(IterativeSolver):
 
 
 
+    def inner_product(self, U, V):
+        """Compute the real inner product of two arrays in the domain in
+        which the solution and gradient are represented.
+        """
+
+        return np.sum(np.real(np.conj(U) * V))
+
+
+
     def eval_linear_approx(self, Dxy, gradY):
         r"""Compute term :math:`\langle \nabla f(\mathbf{y}), \mathbf{x}
         - \mathbf{y} \rangle` that is part of the quadratic function
@@ -893,6 +902,23 @@ class PGMDFT(PGM):
 
 
 
+    def inner_product(self, U, V):
+        """Compute the real inner product of the full spectra represented
+        by two arrays in the half-spectrum form computed by
+        :func:`.rfftn`, preserving the DFT scaling.
+        """
+
+        UV = np.real(np.conj(U) * V)
+        slc = (slice(None),) * self.axisN[-1]
+        # Frequencies with no complex conjugate counterpart in the part
+        # of the spectrum that is not represented
+        ip = 2.0 * np.sum(UV) - np.sum(UV[slc + (0,)])
+        if self.Nv[-1] % 2 == 0:
+            ip -= np.sum(UV[slc + (-1,)])
+        return ip
+
+
+
     def eval_linear_approx(self, Dxy, gradY):
         r"""Compute term :math:`\langle \nabla f(\mathbf{y}),
         \mathbf{x} - \mathbf{y} \rangle` (in frequency domain) that is
@@ -901,4 +927,4 @@ class PGMDFT(PGM):
         the DFT, it is important to preserve the DFT scaling.
         """
 
-        return np.sum(np.real(np.conj(Dxy) * gradY))
+        return self.inner_product(Dxy, gradY)
diff --git a/sporco/pgm/stepsize.py b/sporco/pgm/stepsize.py
index 6a72ff2..c8d34d3 100644
--- a/sporco/pgm/stepsize.py
+++ b/sporco/pgm/stepsize.py
@@ -76,8 +76,9 @@ class StepSizePolicyCauchy(StepSizePolicyBase):
 
         if grad is None:
             grad = solverobj.grad_f()
-        den = np.sum(np.real(np.conj(grad) * grad))
-        num = np.sum(np.real(np.conj(grad) * solverobj.hessian_f(grad)))
+        den = solverobj.inner_product(grad, grad)
+        num = solverobj.inner_product(grad,
+                                       solverobj.hessian_f(grad))
 
         # Zero gradient: step size is undefined
         if den == 0.0:
@@ -139,8 +140,8 @@ class StepSizePolicyBB(StepSizePolicyBase):
             grad = solverobj.grad_f()
         dx = solverobj.var_x() - self.xprv
         dg = grad - self.gradprv
-        den = np.sum(np.real(np.conj(dx) * dg))
-        num = np.sum(np.real(np.conj(dg) * dg))
+        den = solverobj.inner_product(dx, dg)
+        num = solverobj.inner_product(dg, dg)
 
         # No change in solution or gradient: step size is undefined
         if num == 0.0 or den == 0.0:
-- 
2.43.0


From fd0e221e2680fd38571c656eabec222e1a0860f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:32 +0000
Subject: [PATCH 65/80] fix: DFT-domain proximal gradient iterations do not
 overwrite returned results

---
 sporco/pgm/pgm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 9394cdc..bc1d700 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -810,7 +810,7 @@ class PGMDFT(PGM):
         self.Vf[:] = self.Yf - (1. / self.L) * gradf
         V = irfftn(self.Vf, self.Nv, self.axisN)
 
-        self.X[:] = self.prox_g(V)
+        self.X = np.asarray(self.prox_g(V), dtype=self.dtype)
         self.Xf = rfftn(self.X, None, self.axisN)
 
         if self.opt['Monotone'] and self.k > 0:
@@ -820,7 +820,7 @@ class PGMDFT(PGM):
                 # If increment on objective function
                 # revert to previous iterate
                 self.Xf = self.Xfprv.copy()
-                self.X[:] = self.Xprv
+                self.X = self.Xprv.copy()
                 self.objfn = self.objfn_prev
         elif self.opt['Monotone']:
             # No previous iterate to revert to
-- 
2.43.0


From 5c67e4119962f406e3d48fc4023b11cc5687d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:24 +0000
Subject: [PATCH 66/80] fix: ParConvBPDN with more processes than filters uses
 one group per filter

---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index bbe0680..465753e 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -587,7 +587,7 @@ class ParConvBPDN(GenericConvBPDN):
                 self.ngrp = ngrp
         else:
             if ngrp is None:
-                self.ngrp = nproc
+                self.ngrp = min(nproc, self.cri.M)
                 self.nproc = nproc
             else:
                 self.ngrp = ngrp
-- 
2.43.0


From 303701769630b211d81eb058975443e5e275cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:03 +0000
Subject: [PATCH 67/80] fix: parallel consensus dictionary learning objects do
 not share state and can be pickled or copied

---
 sporco/dictlrn/prlcnscdl.py | 123 ++++++++++++++++++++++++++++++++----
 1 file changed, 110 insertions(+), 13 deletions(-)

diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 913beee..bd2dae9 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -14,7 +14,6 @@ import platform
 if platform.system() == 'Windows' or platform.system() == 'Darwin':
     raise RuntimeError('Module %s is not supported under Windows or '
                        'MacOS' % __name__)
-import collections
 import multiprocessing as mp
 import numpy as np
 
@@ -131,6 +130,30 @@ def init_mpraw(mpv, npv):
 
 
 
+def _get_mpvar():
+    """Get a dict of the current values of the module variables."""
+
+    return {k: v for k, v in globals().items() if k.startswith('mp_') or
+            k in ('real_dtype', 'fftn', 'ifftn', 'fl2norm2')}
+
+
+
+def _mpvar_as_shared(mpvar):
+    """Construct a copy of a dict of module variables with the arrays in
+    shared memory.
+    """
+
+    mpvar_new = {}
+    for k, v in mpvar.items():
+        if isinstance(v, np.ndarray):
+            mpvar_new[k] = mpraw_as_np(v.shape, v.dtype)
+            mpvar_new[k][:] = v
+        else:
+            mpvar_new[k] = v
+    return mpvar_new
+
+
+
 def cbpdn_setdict():
     """Set the dictionary for the cbpdn stage. There are no parameters
     or return values because all inputs and outputs are from and to
@@ -421,8 +444,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
 
         # Set up iterations statistics
         itstat_fields = ['Iter', 'ObjFun', 'DFid', 'RegL1', 'Time']
-        self.IterationStats = collections.namedtuple('IterationStats',
-                                                     itstat_fields)
+        self.IterationStats = common.itstat_type(itstat_fields)
         self.itstat = []
 
         # Initialise iteration counter
@@ -490,6 +512,33 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         global mp_D_U
         init_mpraw('mp_D_U', np.moveaxis(self.dstep.U, -1, 0))
 
+        # Record the module variables of this object so that they can be
+        # reinstated if another object is initialised or solved
+        self.mpvar = _get_mpvar()
+
+
+
+    def __getstate__(self):
+        """Get object state for pickling or copying."""
+
+        state = self.__dict__.copy()
+        state.pop('pool', None)
+        state['IterationStats'] = self.IterationStats._fields
+        return state
+
+
+
+    def __setstate__(self, state):
+        """Restore object state on unpickling or copying."""
+
+        self.__dict__.update(state)
+        self.IterationStats = common.itstat_type(state['IterationStats'])
+        # Arrays need to be in shared memory
+        self.mpvar = _mpvar_as_shared(self.mpvar)
+
+
+
+
 
 
 
@@ -497,6 +546,9 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         """Do a single iteration over all cbpdn and ccmod steps. Those that
         are not coupled on the K axis are performed in parallel."""
 
+        # Ensure that the module variables are those of this object
+        globals().update(self.mpvar)
+
         # If the nproc parameter of __init__ is zero, just iterate
         # over the K consensus instances instead of using
         # multiprocessing to do the computations in parallel. This is
@@ -551,6 +603,9 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         # Reset timer
         self.timer.start(['solve', 'solve_wo_eval'])
 
+        # Ensure that the module variables are those of this object
+        globals().update(self.mpvar)
+
         # Create process pool
         if self.nproc > 0:
             self.pool = mp.Pool(processes=self.nproc)
@@ -583,6 +638,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         if self.nproc > 0:
             self.pool.close()
             self.pool.join()
+            del self.pool
 
         # Increment iteration count
         self.j += 1
@@ -604,8 +660,9 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         :func:`.cnvrep.bcrop` to returned array.
         """
 
-        global mp_D_Y
-        D = mp_D_Y
+        # A copy is required since the shared memory array is modified by
+        # any subsequent call to solve
+        D = self.mpvar['mp_D_Y'].copy()
         if crop:
             D = cr.bcrop(D, self.dstep.cri.dsz, self.dstep.cri.dimN)
         return D
@@ -615,14 +672,17 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
     def getcoef(self):
         """Get final coefficient map array."""
 
-        global mp_Z_Y
-        return np.swapaxes(mp_Z_Y, 0, self.xstep.cri.axisK+1)[0]
+        Z = self.mpvar['mp_Z_Y']
+        return np.swapaxes(Z, 0, self.xstep.cri.axisK+1)[0].copy()
 
 
 
     def evaluate(self):
         """Evaluate functional value of previous iteration."""
 
+        # Ensure that the module variables are those of this object
+        globals().update(self.mpvar)
+
         X = mp_Z_Y
         Xf = mp_Zf
         Df = mp_Df
@@ -976,8 +1036,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
 
         # Set up iterations statistics
         itstat_fields = ['Iter', 'ObjFun', 'DFid', 'RegL1', 'Time']
-        self.IterationStats = collections.namedtuple('IterationStats',
-                                                     itstat_fields)
+        self.IterationStats = common.itstat_type(itstat_fields)
         self.itstat = []
 
         # Initialise iteration counter
@@ -1056,6 +1115,33 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         init_mpraw('mp_D_U1',
                    np.moveaxis(self.dstep.U1, -2, 0)[..., np.newaxis])
 
+        # Record the module variables of this object so that they can be
+        # reinstated if another object is initialised or solved
+        self.mpvar = _get_mpvar()
+
+
+
+    def __getstate__(self):
+        """Get object state for pickling or copying."""
+
+        state = self.__dict__.copy()
+        state.pop('pool', None)
+        state['IterationStats'] = self.IterationStats._fields
+        return state
+
+
+
+    def __setstate__(self, state):
+        """Restore object state on unpickling or copying."""
+
+        self.__dict__.update(state)
+        self.IterationStats = common.itstat_type(state['IterationStats'])
+        # Arrays need to be in shared memory
+        self.mpvar = _mpvar_as_shared(self.mpvar)
+
+
+
+
 
 
 
@@ -1063,6 +1149,9 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         """Do a single iteration over all cbpdn and ccmod steps. Those
         that are not coupled on the K axis are performed in parallel."""
 
+        # Ensure that the module variables are those of this object
+        globals().update(self.mpvar)
+
         # If the nproc parameter of __init__ is zero, just iterate
         # over the K consensus instances instead of using
         # multiprocessing to do the computations in parallel. This is
@@ -1117,6 +1206,9 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         # Reset timer
         self.timer.start(['solve', 'solve_wo_eval'])
 
+        # Ensure that the module variables are those of this object
+        globals().update(self.mpvar)
+
         # Create process pool
         if self.nproc > 0:
             self.pool = mp.Pool(processes=self.nproc)
@@ -1149,6 +1241,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         if self.nproc > 0:
             self.pool.close()
             self.pool.join()
+            del self.pool
 
         # Increment iteration count
         self.j += 1
@@ -1170,8 +1263,9 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         :func:`.cnvrep.bcrop` to returned array.
         """
 
-        global mp_D_Y0
-        D = mp_D_Y0
+        # A copy is required since the shared memory array is modified by
+        # any subsequent call to solve
+        D = self.mpvar['mp_D_Y0'].copy()
         if crop:
             D = cr.bcrop(D, self.dstep.cri.dsz, self.dstep.cri.dimN)
         return D
@@ -1181,14 +1275,17 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
     def getcoef(self):
         """Get final coefficient map array."""
 
-        global mp_Z_Y1
-        return np.swapaxes(mp_Z_Y1, 0, self.xstep.cri.axisK+1)[0]
+        Z = self.mpvar['mp_Z_Y1']
+        return np.swapaxes(Z, 0, self.xstep.cri.axisK+1)[0].copy()
 
 
 
     def evaluate(self):
         """Evaluate functional value of previous iteration."""
 
+        # Ensure that the module variables are those of this object
+        globals().update(self.mpvar)
+
         if self.opt['AccurateDFid']:
             DX = self.reconstruct()
             W = self.dstep.W
-- 
2.43.0


From 2fce3304da161081885ad9fee13feeb5ded9e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:06 +0000
Subject: [PATCH 68/80] fix: accurate objective of dictionary learning includes
 the l1 weights

---
 sporco/dictlrn/bpdndl.py    | 2 +-
 sporco/dictlrn/cbpdndl.py   | 2 +-
 sporco/dictlrn/cbpdndlmd.py | 2 +-
 sporco/dictlrn/wbpdndl.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/bpdndl.py b/sporco/dictlrn/bpdndl.py
index fc6d67b..06bf2b4 100644
--- a/sporco/dictlrn/bpdndl.py
+++ b/sporco/dictlrn/bpdndl.py
@@ -200,7 +200,7 @@ class BPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_y()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm((D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 605fdf9..5ce0854 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -520,7 +520,7 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             Ef = inner(Df, Xf, axis=self.xstep.cri.axisM) - Sf
             dfd = rfl2norm2(Ef, self.xstep.S.shape,
                             axis=self.xstep.cri.axisN) / 2.0
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index 2b1ea0c..31842d4 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -536,7 +536,7 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
                 X = self.xstep.getcoef()
             else:
                 X = self.xstep.var_y1()
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/wbpdndl.py b/sporco/dictlrn/wbpdndl.py
index 27b34e2..148780f 100644
--- a/sporco/dictlrn/wbpdndl.py
+++ b/sporco/dictlrn/wbpdndl.py
@@ -204,7 +204,7 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_x()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm(np.sqrt(self.W) * (D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
-- 
2.43.0


From 53f49de7e438d22c2f318dcf7a3562c95688a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:06 +0000
Subject: [PATCH 69/80] fix: parallel consensus dictionary learning applies the
 coefficient weights and constraints

---
 sporco/dictlrn/prlcnscdl.py | 73 +++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index bd2dae9..449c766 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -40,6 +40,8 @@ __all__ = ['ConvBPDNDictLearn_Consensus',
 mp_cri = None    # A cnvrep.CSC_ConvRepIndexing object describing problem
                  # dimensions
 mp_lmbda = None  # Regularisation parameter lambda
+mp_wl1 = None    # L1Weight array or scalar
+mp_cprjct = None # Flag and slices for coefficient constraints
 mp_dprox = None  # Projection operator of the dictionary update
 mp_xrho = None   # Penalty parameter of the X (cbpdn) step
 mp_drho = None   # Penalty parameter of the D (ccmod) step
@@ -198,6 +200,61 @@ def cbpdn_relax(k):
 
 
 
+def cbpdn_proxl1(V, k):
+    r"""Compute the proximal operator corresponding to the :math:`\ell_1`
+    term of the cbpdn stage, together with any constraints on the
+    coefficient maps.
+
+    Parameters
+    ----------
+    V : array_like
+      Input array
+    k : int
+      Slice index
+
+    Returns
+    -------
+    Z : ndarray
+      Result of the proximal operator
+    """
+
+    wl1 = mp_wl1[k] if mp_wl1.shape[0] > 1 else mp_wl1[0]
+    Z = sp.prox_l1(V, (mp_lmbda / mp_xrho) * wl1)
+    nonneg, bndry = mp_cprjct
+    if nonneg:
+        Z[Z < 0.0] = 0.0
+    for slc in bndry:
+        Z[slc] = 0.0
+    return Z
+
+
+
+def get_cprjct(xstep):
+    """Get description of the constraints on the coefficient maps.
+
+    Parameters
+    ----------
+    xstep : :class:`.admm.cbpdn.GenericConvBPDN` object
+      Sparse coding solver object
+
+    Returns
+    -------
+    nonneg : bool
+      Flag indicating whether coefficients are required to be non-negative
+    bndry : list of tuple of slice
+      Slices of the coefficient map array that are required to be zero
+    """
+
+    bndry = []
+    if xstep.opt['NoBndryCross']:
+        for n in range(0, xstep.cri.dimN):
+            if xstep.D.shape[n] > 1:
+                bndry.append((slice(None),) * n +
+                             (slice(1 - xstep.D.shape[n], None),))
+    return xstep.opt['NonNegCoef'], bndry
+
+
+
 def cbpdn_ystep(k):
     """Do the Y step of the cbpdn stage. The only parameter is the slice
     index `k` and there are no return values; all inputs and outputs are
@@ -205,7 +262,7 @@ def cbpdn_ystep(k):
     """
 
     AXU = mp_Z_X[k] + mp_Z_U[k]
-    mp_Z_Y[k] = sp.prox_l1(AXU, (mp_lmbda/mp_xrho))
+    mp_Z_Y[k] = cbpdn_proxl1(AXU, k)
 
 
 
@@ -476,6 +533,10 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         mp_cri = self.xstep.cri
         global mp_lmbda
         mp_lmbda = self.xstep.lmbda
+        global mp_wl1
+        init_mpraw_swap('mp_wl1', self.xstep.wl1)
+        global mp_cprjct
+        mp_cprjct = get_cprjct(self.xstep)
         global mp_xrho
         mp_xrho = self.xstep.rho
         global mp_drho
@@ -691,7 +752,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
                       axis=self.xstep.cri.axisM+1) - Sf
         Ef = np.swapaxes(Ef, 0, self.xstep.cri.axisK+1)[0]
         dfd = fl2norm2(Ef, self.xstep.S.shape, axis=self.xstep.cri.axisN)/2.0
-        rl1 = np.sum(np.abs(X))
+        rl1 = np.sum(np.abs(mp_wl1 * X))
         obj = dfd + self.xstep.lmbda*rl1
         return (obj, dfd, rl1)
 
@@ -781,7 +842,7 @@ def cbpdnmd_ystep(k):
     AXU0 = mp_DX[k] - mp_S[k] + mp_Z_U0[k]
     AXU1 = mp_Z_X[k] + mp_Z_U1[k]
     mp_Z_Y0[k] = mp_xrho*AXU0 / (W**2 + mp_xrho)
-    mp_Z_Y1[k] = sp.prox_l1(AXU1, (mp_lmbda/mp_xrho))
+    mp_Z_Y1[k] = cbpdn_proxl1(AXU1, k)
 
 
 
@@ -1068,6 +1129,10 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         mp_cri = self.xstep.cri
         global mp_lmbda
         mp_lmbda = self.xstep.lmbda
+        global mp_wl1
+        init_mpraw_swap('mp_wl1', self.xstep.wl1)
+        global mp_cprjct
+        mp_cprjct = get_cprjct(self.xstep)
         global mp_xrho
         mp_xrho = self.xstep.rho
         global mp_drho
@@ -1300,7 +1365,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
                        self.xstep.cri.Nv, np.array(self.xstep.cri.axisN) + 1)
 
         dfd = (np.linalg.norm(W * (DX - S))**2) / 2.0
-        rl1 = np.sum(np.abs(self.getcoef()))
+        rl1 = np.sum(np.abs(self.xstep.wl1 * self.getcoef()))
         obj = dfd + self.xstep.lmbda*rl1
 
         return (obj, dfd, rl1)
-- 
2.43.0


From fab0f6cae22bc15955aac26e8847fdbcf97b8490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:17 +0000
Subject: [PATCH 70/80] fix: dictionary update solvers with ZeroMean or
 NonNegCoef can be pickled

---
 sporco/admm/cmod.py |  9 ++++++++-
 sporco/pgm/cmod.py  | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cmod.py b/sporco/admm/cmod.py
index 7c35907..0ffb00d 100644
--- a/sporco/admm/cmod.py
+++ b/sporco/admm/cmod.py
@@ -299,12 +299,19 @@ def getPcn(zm):
     """
 
     if zm:
-        return lambda x: normalise(zeromean(x))
+        return _Pcn_zm
     else:
         return normalise
 
 
 
+def _Pcn_zm(x):
+    """Zero-mean and normalise columns."""
+
+    return normalise(zeromean(x))
+
+
+
 def zeromean(v):
     """Subtract mean of each column of matrix.
 
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index 2ce85ac..d12a73a 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -370,15 +370,29 @@ def getPcn(zm, nnc):
         if nnc:
             raise ValueError('Parameters zm and nnc may not both be True')
         else:
-            return lambda x: normalise(zeromean(x))
+            return _Pcn_zm
     else:
         if nnc:
-            return lambda x: normalise(np.clip(x, 0, None))
+            return _Pcn_nn
         else:
             return normalise
 
 
 
+def _Pcn_zm(x):
+    """Zero-mean and normalise columns."""
+
+    return normalise(zeromean(x))
+
+
+
+def _Pcn_nn(x):
+    """Clip to non-negative values and normalise columns."""
+
+    return normalise(np.clip(x, 0, None))
+
+
+
 def zeromean(v):
     """Subtract mean of each column of matrix.
 
-- 
2.43.0


From e42939d2b7b14d21fc3484fb80656c72ec2fce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:44 +0000
Subject: [PATCH 71/80] fix: arrays returned by ADMM consensus and dictionary
 update solvers are not overwritten by later iterations

---
 sporco/admm/admm.py  | 8 ++++++--
 sporco/admm/ccmod.py | 2 +-
 sporco/admm/cmod.py  | 2 +-
 sporco/admm/ppp.py   | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/admm.py b/sporco/admm/admm.py
index c8ab2e3..f1cde91 100644
--- a/sporco/admm/admm.py
+++ b/sporco/admm/admm.py
@@ -1588,7 +1588,9 @@ class ADMMConsensus(ADMM):
 
         rho = self.Nb * self.rho
         mAXU = np.mean(self.AX + self.U, axis=-1)
-        self.Y[:] = self.prox_g(mAXU, rho)
+        Y = np.empty_like(self.Y)
+        Y[:] = self.prox_g(mAXU, rho)
+        self.Y = Y
 
 
 
@@ -1798,7 +1800,9 @@ class WeightedADMMConsensus(ADMMConsensus):
         asum = np.sum(self.alpha)
         rho = asum * self.rho
         wmAXU = np.average(self.AX + self.U, axis=-1, weights=self.alpha)
-        self.Y[:] = self.prox_g(wmAXU, rho)
+        Y = np.empty_like(self.Y)
+        Y[:] = self.prox_g(wmAXU, rho)
+        self.Y = Y
 
 
 
diff --git a/sporco/admm/ccmod.py b/sporco/admm/ccmod.py
index 1880c1c..99fabd1 100644
--- a/sporco/admm/ccmod.py
+++ b/sporco/admm/ccmod.py
@@ -304,7 +304,7 @@ class ConvCnstrMODBase(admm.ADMMEqual):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            return self.Y
+            return self.Y.copy()
 
 
 
diff --git a/sporco/admm/cmod.py b/sporco/admm/cmod.py
index 0ffb00d..054baa4 100644
--- a/sporco/admm/cmod.py
+++ b/sporco/admm/cmod.py
@@ -204,7 +204,7 @@ class CnstrMOD(admm.ADMMEqual):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            return self.Y
+            return self.Y.copy()
 
 
 
diff --git a/sporco/admm/ppp.py b/sporco/admm/ppp.py
index 3366830..d2ec12e 100644
--- a/sporco/admm/ppp.py
+++ b/sporco/admm/ppp.py
@@ -194,7 +194,7 @@ class GenericPPPConsensus(admm.WeightedADMMConsensus):
                                                    self.dtype, opt)
 
         # Initialise working variable
-        self.X = np.zeros(self.xshape)
+        self.X = np.zeros(self.xshape, dtype=self.dtype)
 
 
 
-- 
2.43.0


From f5ec97d59883faed0aa4399ef7a5285e08016a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:55 +0000
Subject: [PATCH 72/80] fix: solver objects for complex data can be pickled

---
 sporco/fft.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index 930a8a1..eaaf6c2 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -485,6 +485,13 @@ def rfl2norm2(xf, xs, axis=(0, 1)):
 
 
 
+def _empty_aligned_wrapper(shape, axes, dtype, order='C', n=None):
+    """Wrapper for :func:`empty_aligned` with a dummy `axes` parameter."""
+
+    return empty_aligned(shape, dtype, order=order, n=n)
+
+
+
 def empty_aligned_func(real=False):
     """Get a reference to :func:`empty_aligned` or :func:`rfftn_empty_aligned`.
 
@@ -507,9 +514,7 @@ def empty_aligned_func(real=False):
     if real:
         return rfftn_empty_aligned
     else:
-        def empty_aligned_wrapper(shape, axes, dtype, order='C', n=None):
-            return empty_aligned(shape, dtype, order=order, n=n)
-        return empty_aligned_wrapper
+        return _empty_aligned_wrapper
 
 
 
@@ -561,6 +566,13 @@ def ifftn_func(real=False):
 
 
 
+def _fl2norm2_wrapper(xf, xs, axis=(0, 1)):
+    """Wrapper for :func:`fl2norm2` with a dummy `xs` parameter."""
+
+    return fl2norm2(xf, axis=axis)
+
+
+
 def fl2norm2_func(real=False):
     """Get a reference to :func:`fl2norm2` or :func:`rfl2norm2`.
 
@@ -583,9 +595,7 @@ def fl2norm2_func(real=False):
     if real:
         return rfl2norm2
     else:
-        def fl2norm2_wrapper(xf, xs, axis=(0, 1)):
-            return fl2norm2(xf, axis=axis)
-        return fl2norm2_wrapper
+        return _fl2norm2_wrapper
 
 
 
-- 
2.43.0


From ab22f4400631d724aa631124cf64367a8c3ec3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:35 +0000
Subject: [PATCH 73/80] fix: AddMaskSim objects can be pickled

---
 sporco/admm/cbpdn.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index c880ee2..680b3b1 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2381,10 +2381,6 @@ class AddMaskSim(object):
         # Construct inner cbpdn object
         self.cbpdn = cbpdnclass(Di, S, *args, **kwargs)
 
-        # Required because dictlrn.DictLearn assumes that all valid
-        # xstep objects have an IterationStats attribute
-        self.IterationStats = self.cbpdn.IterationStats
-
         # Mask matrix
         self.W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
                             dtype=self.cbpdn.dtype)
@@ -2395,18 +2391,42 @@ class AddMaskSim(object):
         if self.cri.Cd > 1 and self.W.shape[self.cri.dimN] > 1:
             self.W = np.swapaxes(self.W, self.cri.axisC, self.cri.axisM)
 
-        # Record ystep method of inner cbpdn object
-        self.inner_ystep = self.cbpdn.ystep
         # Replace ystep method of inner cbpdn object with outer ystep
         self.cbpdn.ystep = MethodType(AddMaskSim.ystep, self)
-
-        # Record obfn_gvar method of inner cbpdn object
-        self.inner_obfn_gvar = self.cbpdn.obfn_gvar
         # Replace obfn_gvar method of inner cbpdn object with outer obfn_gvar
         self.cbpdn.obfn_gvar = MethodType(AddMaskSim.obfn_gvar, self)
 
 
 
+    @property
+    def IterationStats(self):
+        """Iteration statistics type of the inner cbpdn object. Required
+        because dictlrn.DictLearn assumes that all valid xstep objects
+        have an IterationStats attribute.
+        """
+
+        return self.cbpdn.IterationStats
+
+
+
+    def inner_ystep(self):
+        """The ystep method of the inner cbpdn object, prior to its
+        replacement by :meth:`ystep`.
+        """
+
+        type(self.cbpdn).ystep(self.cbpdn)
+
+
+
+    def inner_obfn_gvar(self):
+        """The obfn_gvar method of the inner cbpdn object, prior to its
+        replacement by :meth:`obfn_gvar`.
+        """
+
+        return type(self.cbpdn).obfn_gvar(self.cbpdn)
+
+
+
     def ystep(self):
         """This method is inserted into the inner cbpdn object,
         replacing its own ystep method, thereby providing a hook for
-- 
2.43.0


From 16f73532b885f516bfa1a6fa476b59b664c2c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:46 +0000
Subject: [PATCH 74/80] fix: mask decoupled dictionary update and product
 dictionary joint solvers honour single precision

---
 sporco/admm/ccmodmd.py | 5 ++++-
 sporco/admm/pdcsc.py   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index d712b59..f89545a 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -240,9 +240,12 @@ class ConvCnstrMODMaskDcplBase(admm.ADMMTwoBlockCnstrnt):
         # Infer problem dimensions and set relevant attributes of self
         self.cri = cr.CDU_ConvRepIndexing(dsz, S, dimK=dimK, dimN=dimN)
 
+        # Set dtype attribute
+        self.set_dtype(opt, S.dtype)
+
         # Convert W to internal shape
         W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
-                       dtype=S.dtype)
+                       dtype=self.dtype)
 
         # Reshape W if necessary (see discussion of reshape of S below)
         if self.cri.Cd == 1 and self.cri.C > 1:
diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 2b29003..830674c 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -688,7 +688,7 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
         Y1 = prox_sl1l2(self.block_sep1(self.Y), 0.0,
                         (self.lmbda/self.rho)*self.wl21,
                         axis=self.cri.axisC)
-        self.Y = self.block_cat(Y0, Y1)
+        self.Y = np.asarray(self.block_cat(Y0, Y1), dtype=self.dtype)
 
 
 
-- 
2.43.0


From d87f63b40112a0c0f1f318df83e7da7cc610746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:25 +0000
Subject: [PATCH 75/80] fix: BPDN solvers of the sporco.cupy host fallback can
 solve linear systems

---
 sporco/cupy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index 50fb271..1b6ee4f 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -48,8 +48,10 @@ try:
     else:
         from ._nogputil import *
 except Exception:
-    # If cupy import or device access fails, import numpy to the same alias
+    # If cupy import or device access fails, import numpy and scipy.linalg
+    # to the same aliases
     import numpy as cp
+    import scipy.linalg as cpxl
     # Flag indicating unsuccessful import
     have_cupy = False
     # Import appropriate versions of utility functions
-- 
2.43.0


From 6156c0fc1d553fa8da230807149dc5df4613fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 76/80] fix: mask layout of product dictionary solvers follows
 the signal channels

---
 sporco/admm/pdcsc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 830674c..f616aba 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -378,6 +378,11 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
             dimK = 0
         scidx = -2 if S.ndim == dimN + 2 else -1
         SB = dot(B.T, S, axis=scidx)
+        # The layout of W depends on the number of channels of S, not that
+        # of the modified S passed to the base class initialiser
+        if W is not None:
+            W = W.reshape(cr.mskWshape(
+                W, cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)))
         super(ConvProdDictL1L1Grd, self).__init__(
             D, SB, lmbda, mu, W=W, opt=opt, dimK=dimK, dimN=dimN)
 
-- 
2.43.0


From 38d7f43e883315f616fafb9f5a0ee1cd2c7e0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 77/80] fix: lateral inhibition excludes a filter's own
 activity for non-binary grouping weights

---
 sporco/admm/cbpdnin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdnin.py b/sporco/admm/cbpdnin.py
index 758d869..1ee2f2f 100644
--- a/sporco/admm/cbpdnin.py
+++ b/sporco/admm/cbpdnin.py
@@ -317,7 +317,7 @@ class ConvBPDNInhib(cbpdn.ConvBPDN):
                 WhXal = irfftn(self.Whfl * Xaf, self.cri.Nv, self.cri.axisN)
                 # Sum the weights across in-group members for each element
                 self.wml = np.dot(np.dot(WhXal, self.Wg.T),
-                                  self.Wg) - np.sum(self.Wg, axis=0) * WhXal
+                                  self.Wg) - np.sum(self.Wg**2, axis=0) * WhXal
                 # Smooth lateral inhibition term
                 self.wml = self.smooth * self.wml_prev + \
                     (1 - self.smooth) * self.wml
-- 
2.43.0


From 6d210a11921d3ca560df4652429b1a7535ecdfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 78/80] fix: count channels of coefficient maps in
 ConvTwoBlockCnstrnt variable size

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 680b3b1..5950187 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -1595,7 +1595,7 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
         self.y0swapaxes = bool(self.cri.C > 1 and self.cri.Cd > 1)
 
         # Call parent class __init__
-        Nx = self.cri.M * self.cri.N * self.cri.K
+        Nx = np.prod(np.array(self.cri.shpX))
         shpY = list(self.cri.shpX)
         if self.y0swapaxes:
             shpY[self.cri.axisC] = 1
-- 
2.43.0


From 3fab63dc4ac25fb8f8c0603997b8bcb09bcbf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 79/80] fix: size of the constraint of ConvProdDictL1L1Grd
 follows the reshaped dual variable

---
 sporco/admm/pdcsc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index f616aba..876d5e2 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -412,6 +412,7 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         self.y0I = int(np.prod(np.array(self.y0shp[self.cri.axisC:])))
         self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
+        self.Nc = np.prod(np.array(self.yshp))
         self.Y = np.zeros(self.yshp, dtype=self.dtype)
         self.U = np.zeros(self.yshp, dtype=self.dtype)
         self.YU = empty_aligned(self.Y.shape, dtype=self.dtype)
-- 
2.43.0


From 9d8374ea493b03af7e980f8aa08639d9ebb41619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:11 +0000
Subject: [PATCH 80/80] fix: initial values given to ConvProdDictL1L1Grd are
 used

---
 sporco/admm/pdcsc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 876d5e2..2e57c05 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -413,8 +413,10 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
         self.Nc = np.prod(np.array(self.yshp))
-        self.Y = np.zeros(self.yshp, dtype=self.dtype)
-        self.U = np.zeros(self.yshp, dtype=self.dtype)
+        if self.opt['Y0'] is None:
+            self.Y = self.yinit(self.yshp)
+        if self.opt['U0'] is None:
+            self.U = self.uinit(self.yshp)
         self.YU = empty_aligned(self.Y.shape, dtype=self.dtype)
 
 
-- 
2.43.0

