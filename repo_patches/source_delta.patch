From 469cc7d3d9f0eb4e9b113e631e5c80b11a1aa084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:47 +0000
Subject: [PATCH 01/41] fix: Activation.__add__ returned its left operand
 instead of the logical OR

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index ec7e5fc..0993355 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -722,7 +722,7 @@ class Activation(ABC):
 
     def __add__(self, other: "Activation") -> "Activation":
         """Synonym of logical OR"""
-        return self or other
+        return self | other
 
     def __sub__(self, other: "Activation") -> "Activation":
         """Logical EXCLUSIVE OR then logical AND"""
-- 
2.43.0


From 1d782d6d5b7533f1313fab9a4df649ae9a8b6ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:53 +0000
Subject: [PATCH 02/41] fix: logical operators between two integer-format
 activations lost the vector length

---
 ruleskit/activation.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 0993355..f0ee9e3 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -574,7 +574,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data & a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data & a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw * a2.raw,
@@ -634,7 +639,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data | a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data | a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw | a2.raw,
@@ -695,7 +705,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data ^ a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data ^ a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw ^ a2.raw,
-- 
2.43.0


From 3e53ebfc112fcb487c7f43a07ea538c5c7d168aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:59 +0000
Subject: [PATCH 03/41] fix: Activation.__contains__ also answered True when
 self was the subset

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index f0ee9e3..2fbea3e 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -774,7 +774,7 @@ class Activation(ABC):
         intersection = self & other
         nones_intersection = intersection.nones
         intersection.delete()
-        if nones_intersection < min(self.nones, other.nones):
+        if nones_intersection < other.nones:
             return False
         return True
 
-- 
2.43.0


From 725e6869be985e6816f7cdd5780573c05d4a03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:04 +0000
Subject: [PATCH 04/41] fix: activation of length 1 stored as compressed array
 was read back with length 2

---
 ruleskit/activation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 2fbea3e..36eda3d 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -959,12 +959,15 @@ class Activation(ABC):
         """
         t0 = time()
 
+        known_compressed = False
         if value is None:
             out = False
             if self.data_format == "file":
                 value = self._read(out=False)
             else:
                 value = self.data
+                # The compressed array of a vector of length 1 ends with 1 too, do not mistake it for a raw vector
+                known_compressed = self.data_format == "compressed_array"
 
         if isinstance(value, (int, bitarray, Path)):
             raise TypeError("Can not apply _decompress on a bitarray, integer or Path")
@@ -985,7 +988,7 @@ class Activation(ABC):
                     if self._nones is None:
                         self._nones = 0
                 return np.array([])
-        if value[-1] == 0 or value[-1] == 1:  # is already raw
+        if not known_compressed and (value[-1] == 0 or value[-1] == 1):  # is already raw
             if value.dtype != np.ubyte:  # Saves memory
                 value = value.astype(np.ubyte)
             if not out:
-- 
2.43.0


From 1f7a2bc0767ddbe1057116d69e92b5423363437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:10 +0000
Subject: [PATCH 05/41] fix: an empty activation vector could not be kept in
 RAM

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 36eda3d..e884f7e 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -514,7 +514,7 @@ class Activation(ABC):
         self.length = len(value)
         self._nones = np.count_nonzero(value == 1)
 
-        if Activation.STORE_RAW:
+        if Activation.STORE_RAW or self.length == 0:
             self.data = value
             self.data_format = "raw"
             return
-- 
2.43.0


From 7e5f600207cfbc357cf6c00d8df1a1269df4c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:14 +0000
Subject: [PATCH 06/41] fix: compressed arrays of length in [2**31, 2**32)
 overflowed int32

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index e884f7e..e834ad0 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -19,7 +19,7 @@ try:
 except ImportError:
     TransparentPath = None
 
-MAX_INT_32 = 2 ** 32
+MAX_INT_32 = 2 ** 31
 
 
 # noinspection PyAttributeOutsideInit
-- 
2.43.0


From fd921f8f7984ca45356aee75460f475413e66edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:20 +0000
Subject: [PATCH 07/41] fix: storing an activation raised or overwrote a file
 when its random file name was already taken

---
 ruleskit/activation.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index e834ad0..bf03477 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -309,20 +309,16 @@ class Activation(ABC):
         number = random.randint(*arange)
         data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         attempts = 0
-        if not self.lasy:
-            # If is lasy, then the vector was loaded from a file that should be re-used for writing
-            while data.is_file():
-                if attempts > 99:
-                    logger.warning(
-                        "Failed to save activation vector locally after 100 attempts at finding an available"
-                        " name. Will keep it in RAM."
-                    )
-                    return False
-                number += 1
-                attempts += 1
-                arange.remove(number)
-                number = random.randint(*arange)
-                data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
+        while data.is_file():
+            if attempts > 99:
+                logger.warning(
+                    "Failed to save activation vector locally after 100 attempts at finding an available"
+                    " name. Will keep it in RAM."
+                )
+                return False
+            attempts += 1
+            number = random.randint(*arange)
+            data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         data.touch()
         self.data = data
         self.data_format = "file"
-- 
2.43.0


From 4744e06f55b7f57fa3b8d7ed14c4fa194cdee5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:26 +0000
Subject: [PATCH 08/41] fix: activations given as a string of bits or as a path
 string were never recognised

---
 ruleskit/activation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index bf03477..09bb741 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -204,7 +204,7 @@ class Activation(ABC):
         self.lasy = False
 
         # does not use instance to avoid conflicts if using TransparentPath
-        if type(activation) == "str" and "," not in activation:
+        if type(activation) == str and "," not in activation:
             if any([c in activation for c in "abcdefhijklmnopqrstuvwxy./\\"]):  # is a file path
                 if TransparentPath is not None:
                     # noinspection PyCallingNonCallable
@@ -213,6 +213,7 @@ class Activation(ABC):
                     activation = Path(activation)
             else:
                 if Activation.WILL_COMPARE:
+                    length = len(activation)
                     activation = int(activation, 2)
                 else:
                     activation = bitarray(activation)
-- 
2.43.0


From 276ce2ad3803627ea74d381ce01f150af13cc2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:32 +0000
Subject: [PATCH 09/41] fix: multi_logical_xor ignored asarray when given a
 single vector

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 09bb741..14cee30 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -720,6 +720,8 @@ class Activation(ABC):
         """Do LOGICAL EXCLUSIVE OR on many activation vectors at once. Uses raw np.ndarrays to gain time.
         If asarray is True, does not cast the result into an Activation object but returns the raw np.ndarray."""
         if len(acs) == 1:
+            if asarray:
+                return acs[0].raw
             return Activation(acs[0].raw, optimize=acs[0].optimize, to_file=acs[0].data_format == "file")
         lor = Activation.multi_logical_or(acs, True)
         nland = -(Activation.multi_logical_and(acs, True) - 1)
-- 
2.43.0


From 7ce37dcf538366b35f81b8504e703bcec1b6d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:12 +0000
Subject: [PATCH 10/41] fix: copying an activation of length 1 stored as
 compressed array changed its length

---
 ruleskit/activation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 14cee30..a16c598 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -747,6 +747,9 @@ class Activation(ABC):
     def __copy__(self) -> "Activation":
         if self.data_format == "integer":
             return Activation(copy(self.data), optimize=self.optimize, length=self.length)
+        if self.data_format == "compressed_array" and self.length == 1:
+            # [0, 1] or [1, 1] would be taken for a raw vector of length 2
+            return Activation(self.raw, optimize=self.optimize, to_file=False)
         return Activation(copy(self.data), optimize=self.optimize, to_file=self.data_format == "file")
 
     def clear(self):
-- 
2.43.0


From 30d23caad10e632f096d8a599ff4dc34ea9e427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:16 +0000
Subject: [PATCH 11/41] fix: length, coverage, entropy and logical operators
 failed on lasy activations before their first read

---
 ruleskit/activation.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index a16c598..5132a67 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -69,7 +69,7 @@ class Activation(ABC):
         self._coverage = None
 
         # Format attributes
-        self.length = None  # Will be set by init methods
+        self._length = None  # Will be set by init methods
         self.data = None  # Will be set by init methods
 
         """
@@ -1147,6 +1147,18 @@ class Activation(ABC):
 
     """properties"""
 
+    @property
+    def length(self) -> Optional[int]:
+        """Number of points in the vector. If the vector was given as a path with lasy=True, it is only known once the
+        file has been read."""
+        if self._length is None and self.lasy and self.data_format == "file":
+            self._length = len(self._read(out=False))
+        return self._length
+
+    @length.setter
+    def length(self, value: Optional[int]):
+        self._length = value
+
     @property
     def ones(self) -> np.ndarray:
         """ones is the list of indexes where the vector is 1
-- 
2.43.0


From 6ce81cc41cd3804ba3c7d898597f09117aa65a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:21 +0000
Subject: [PATCH 12/41] fix: conditions with different bounds compared equal
 when their hashes collided

---
 ruleskit/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 0afd2c2..9c7b6f7 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -352,7 +352,9 @@ class HyperrectangleCondition(Condition):
     def __eq__(self, other):
         """Two HyperrectangleConditions are equal if they talk about the same features, and if the bmins and bmaxs
         are the same from one rule to another. Features indexes can be different."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, Condition):
+            return False
+        return frozenset(self.to_hash) == frozenset(other.to_hash)
 
     @property
     def to_hash(self) -> Tuple[str]:
-- 
2.43.0


From 90805d4ee35d1d49667aa906a4a5166754e4ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:26 +0000
Subject: [PATCH 13/41] fix: a condition stayed impossible after its bounds
 were set to possible ones

---
 ruleskit/condition.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 9c7b6f7..1fe8598 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -321,9 +321,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
@@ -332,9 +331,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From 8e49dad4ec6d5b353a088f9b0af17e1ecaec688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:31 +0000
Subject: [PATCH 14/41] fix: float bounds given as a string were truncated to
 integers

---
 ruleskit/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 1fe8598..b2aaeb4 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -317,7 +317,7 @@ class HyperrectangleCondition(Condition):
     @bmins.setter
     def bmins(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
@@ -327,7 +327,7 @@ class HyperrectangleCondition(Condition):
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-- 
2.43.0


From b3c527ea1872bd0154b88b8f7ae1816c46b8d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:36 +0000
Subject: [PATCH 15/41] fix: unstacked regression predictions were wrong when
 partial sums were zero, with NaN rule predictions or when small integers
 overflowed

---
 ruleskit/utils/rfunctions.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d10de9d..ff7110d 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -459,15 +459,12 @@ def calc_ruleset_prediction_weighted_regressor_unstacked(
         if len(activation) == 0:
             continue
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation) * weights[rulename]
-            cum_w = activation * weights[rulename]
-        else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction * weights[rulename])
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation * weights[rulename]
+            cum_pred = pd.Series(np.zeros(len(activation)))
+            cum_w = pd.Series(np.zeros(len(activation)))
+        if pd.isna(rule.prediction):  # Nothing to predict, same as in the stacked case
+            continue
+        cum_pred = cum_pred + activation * (rule.prediction * weights[rulename])
+        cum_w = cum_w + activation * weights[rulename]
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
@@ -501,15 +498,12 @@ def calc_ruleset_prediction_equally_weighted_regressor_unstacked(
         if len(activation) == 0:
             continue
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation)
-            cum_w = activation
-        else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction)
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation
+            cum_pred = pd.Series(np.zeros(len(activation)))
+            cum_w = pd.Series(np.zeros(len(activation)))
+        if pd.isna(rule.prediction):  # Nothing to predict, same as in the stacked case
+            continue
+        cum_pred = cum_pred + activation * rule.prediction
+        cum_w = cum_w + activation
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
-- 
2.43.0


From 6d416e3b195e70551ab27fc126b42a04a6d51840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 16/41] fix: mae_norm divided by the mean signed deviation,
 which is always zero

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index ff7110d..d4c992b 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -209,7 +209,7 @@ def mae_function(
 def mae_norm(
     prediction_vector: Union[pd.Series, pd.DataFrame], y: Union[np.ndarray, pd.Series]
 ) -> Union[float, pd.Series]:
-    return mae_function(prediction_vector, y) / np.mean(np.mean(y) - y)
+    return mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))
 
 
 def aae_function(
-- 
2.43.0


From ad2dd0f449a2ca45961a430e79e7a2a9bc068750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:47 +0000
Subject: [PATCH 17/41] fix: dropping bad rules in RuleSet.eval left the
 ruleset with an all-zero activation

---
 ruleskit/ruleset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index df527fa..4d6e3f4 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -648,9 +648,8 @@ class RuleSet(ABC):
                 self.append(r, update_activation=False)
 
             # Recompute activation now that bad rules have been droped
-            if self._activation is None or self._activation.length == 0 or (xs is not None and keep_new_activations):
-                self._activation = None
-                self.compute_self_activation()
+            self._activation = None
+            self.compute_self_activation()
             if self.stack_activation and (
                     self.stacked_activations is None or (xs is not None and keep_new_activations)
             ):
-- 
2.43.0


From 77220ee1bbae7a545fc674ad8bee7813629d9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:52 +0000
Subject: [PATCH 18/41] fix: class probabilities were compared as strings when
 classes are strings

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index bec087e..22c5f74 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -734,7 +734,7 @@ class ClassificationRule(Rule):
         if self._prediction is not None:
             if isinstance(self._prediction, (float, int, str, np.integer, np.float64)):
                 return self._prediction
-            prop = [p[1] for p in self._prediction]
+            prop = [float(p[1]) for p in self._prediction]
             idx = prop.index(max(prop))
             return self._prediction[idx][0]
         else:
-- 
2.43.0


From 392ffa106ada924336da3c88344a1cef59a1d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:58 +0000
Subject: [PATCH 19/41] fix: Rule.predict truncated class labels longer than 32
 characters

---
 ruleskit/rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 22c5f74..bc74a43 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -513,7 +513,8 @@ class Rule(ABC):
                 raise ValueError(
                     "Prediction should not be the 'nan' string, it will conflict with NaNs. Rename your class."
                 )
-            to_ret = to_ret.astype(str)
+            # 32 is the size of a float cast to str
+            to_ret = to_ret.astype(f"<U{max(32, len(self.prediction))}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
             to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
-- 
2.43.0


From 0e87fc1e618e7724e303b2dd2742655aa610710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:02 +0000
Subject: [PATCH 20/41] fix: Rule.predict returned a scalar instead of a Series
 on a one-row DataFrame

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index bc74a43..4ac0dcb 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -517,7 +517,7 @@ class Rule(ABC):
             to_ret = to_ret.astype(f"<U{max(32, len(self.prediction))}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
-            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
+            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)  # So not to requier pandas explicitly
         self._time_predict = time() - t0
         return to_ret
 
-- 
2.43.0


From 12dbf337c7bbb3deef75600ebe387340878adc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:08 +0000
Subject: [PATCH 21/41] fix: Rule.get_correlation compared numbers of features
 instead of activation lengths

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 4ac0dcb..33c391e 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -527,7 +527,7 @@ class Rule(ABC):
         of the rules' signs.
         Both vectors must have the same length.
         """
-        if not len(self) == len(other):
+        if not len(self._activation) == len(other._activation):
             raise ValueError("Both vectors must have the same length")
 
         sign = (self.prediction / abs(self.prediction)) * (other.prediction / abs(other.prediction))
-- 
2.43.0


From 281a8a39e1113a961dc588af948bf14cf2d0b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:42 +0000
Subject: [PATCH 22/41] fix: Rule.set_thresholds had no effect

---
 ruleskit/rule.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 33c391e..06b4bc4 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -86,7 +86,7 @@ class Rule(ABC):
 
         self._condition: Optional[Condition] = condition
         self._activation: Optional[Activation] = activation
-        self._thresholds: Optional[Thresholds] = self.__class__.THRESHOLDS
+        self._thresholds: Optional[Thresholds] = None  # Only set by set_thresholds, else the class THRESHOLDS is used
         self._good: bool = True
         self._bad_because: Optional[str] = None
 
@@ -113,7 +113,7 @@ class Rule(ABC):
     def set_thresholds(self, path: Union[str, Path, "TransparentPath"], show=False):
         """Set thresholds for this rule only"""
         if path is None:
-            self._thresholds.THRESHOLDS = None
+            self._thresholds = None
         else:
             self._thresholds = Thresholds(path, show)
 
@@ -128,11 +128,12 @@ class Rule(ABC):
             for which a threshold is defined.
         """
 
-        if self.__class__.THRESHOLDS is None:
+        thresholds = self.thresholds
+        if thresholds is None:
             return
 
         if attribute is not None:
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
             return
@@ -140,7 +141,7 @@ class Rule(ABC):
         for attribute in dir(self):
             if attribute.startswith("__"):
                 continue
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
                 return
@@ -226,7 +227,7 @@ class Rule(ABC):
 
     @property
     def thresholds(self) -> Thresholds:
-        return self._thresholds
+        return self._thresholds if self._thresholds is not None else self.__class__.THRESHOLDS
 
     @property
     def good(self) -> bool:
-- 
2.43.0


From e8ced5e3f3c0994218ef3d402cbf87ca33e98a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:47 +0000
Subject: [PATCH 23/41] fix: typo made get_features_count fail when features
 names are not available

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4d6e3f4..0476e72 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -879,7 +879,7 @@ class RuleSet(ABC):
         if len(self.features_names) > 0:
             var_in = list(itertools.chain(*[rule.features_names for rule in self]))
         else:
-            var_in = list(itertools.chain(*[rule.feautres_indexes for rule in self]))
+            var_in = list(itertools.chain(*[rule.features_indexes for rule in self]))
         count = Counter(var_in)
 
         count = count.most_common()
-- 
2.43.0


From ac5ca38d5f7024de4f02cbc05d5de246c03a04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:51 +0000
Subject: [PATCH 24/41] fix: RuleSet.to_df wrote the train set size as test set
 size

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 0476e72..5380b70 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -972,7 +972,7 @@ class RuleSet(ABC):
         )
         s_test = pd.DataFrame(
             columns=df.columns,
-            data=[[self.train_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
+            data=[[self.test_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
             index=["ruleset test set size"],
         )
         return pd.concat([df, s_cov, s_crit, s_train, s_test])
-- 
2.43.0


From ef9d6488b5d8d58f3df9d42592baff25c1e11e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:56 +0000
Subject: [PATCH 25/41] fix: coverage and criterion of a loaded ruleset were
 strings

---
 ruleskit/ruleset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 5380b70..d8798bd 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -891,10 +891,10 @@ class RuleSet(ABC):
         else:
             rules = pd.read_csv(path, **kwargs)
         if "ruleset coverage" in rules.iloc[:, 0].values:
-            self._coverage = rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1]
+            self._coverage = float(rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
         if "ruleset criterion" in rules.iloc[:, 0].values:
-            self.criterion = rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1]
+            self.criterion = float(rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset criterion"].index)
         if "ruleset train set size" in rules.iloc[:, 0].values:
             self.train_set_size = rules[rules.iloc[:, 0] == "ruleset train set size"].iloc[0, 1]
-- 
2.43.0


From 60c4bee183f0de14afead51a9f740cdd062583ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:00 +0000
Subject: [PATCH 26/41] fix: rulesets with infinite bounds or attributes could
 be saved but not loaded

---
 ruleskit/ruleset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index d8798bd..2603e45 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1021,12 +1021,14 @@ class RuleSet(ABC):
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
             if rule_ind in condition_index:
+                if rule_ind in ("bmins", "bmaxs"):  # literal_eval does not know 'inf'
+                    str_value = str_value.replace("inf", "1e999")
                 condition_index[rule_ind] = ast.literal_eval(str_value)
             elif rule_ind in rule_idx:
                 if rule_ind == "activation":
                     setattr(rule, f"_{rule_ind}", Activation(str_value))
-                elif str_value == "nan":
-                    setattr(rule, f"_{rule_ind}", np.nan)
+                elif str_value in ("nan", "inf", "-inf"):
+                    setattr(rule, f"_{rule_ind}", float(str_value))
                 elif rule_ind == "sign":
                     setattr(rule, f"_{rule_ind}", str_value)
                 else:
-- 
2.43.0


From 53cbac9194f47f070d00f2bf4d6f097c7d9b1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:04 +0000
Subject: [PATCH 27/41] fix: rules extracted from the right branch of a tree
 lost the upper bounds set by their ancestors

---
 ruleskit/utils/rule_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index f268e6d..5e38ec3 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -162,8 +162,8 @@ def extract_rules_from_tree(
 
             # Means we are not at first node. Same logic as previously, except this time
             # if Xi is in the list of features then the new bmins is now the threshold
-            # and bmaxs is modified to be the X maximum. Then keep the max of current
-            # and new bmins as bmins, same for bmaxs.
+            # and bmaxs is left to what it was. Keep the max of current and new bmins as
+            # bmins, and the min of current bmaxs and X maximum as bmaxs.
             # TODO there is something weird here, for X_i will necessarily be in cond, since
             # it was added at the very beginning of the function.
             if condition is not None:
@@ -175,7 +175,7 @@ def extract_rules_from_tree(
                     new_condition = copy.deepcopy(condition)
                     place = new_condition.features_indexes.index(decision_tree.feature[node])
                     new_condition.bmins[place] = max(new_bmins, new_condition.bmins[place])
-                    new_condition.bmaxs[place] = max(new_bmaxs, new_condition.bmaxs[place])
+                    new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])
 
             # Create the rule for the right side of the node then apply this
             # function on the right side of the node
-- 
2.43.0


From 802a009d4ac77bdae3c50eb6588fdca0a88d1e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:22 +0000
Subject: [PATCH 28/41] fix: extract_rules_from_tree used an attribute removed
 from sklearn trees

---
 ruleskit/utils/rule_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index 5e38ec3..1895d6f 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -95,7 +95,7 @@ def extract_rules_from_tree(
     """
     decision_tree = tree.tree_
     if features_names is None:
-        features_names = ["X_" + str(i) for i in range(tree.n_features_)]
+        features_names = ["X_" + str(i) for i in range(tree.n_features_in_)]
 
     def visitor(node, depth, condition=None, rules_list=None):
         if rules_list is None:
-- 
2.43.0


From 2112e3abb58863d4fa1c4188f21b57565129454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:26 +0000
Subject: [PATCH 29/41] fix: rules loaded from a file were all named after a
 column of the file

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 2603e45..4756a31 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1016,7 +1016,7 @@ class RuleSet(ABC):
             rule = Rule()
         rule_idx = copy(rule.__class__.rule_index)
         condition_index = {c: None for c in rule.__class__.condition_index}
-        rule._name = srule.index[0]
+        rule._name = srule["Unnamed: 0"] if "Unnamed: 0" in srule.index else srule.name
 
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
-- 
2.43.0


From 1c3786bde85403b0cff548b5fe00670dd4b0b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:32 +0000
Subject: [PATCH 30/41] fix: stacked fit and eval kept bad rules flagged by the
 last threshold check and returned duplicates

---
 ruleskit/ruleset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4756a31..6a4cced 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -425,11 +425,11 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 # To check attributes that are set along side others, like coverage
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+                if not self._rules[ir].good:
+                    to_drop.append(self._rules[ir])
         else:
             [r.fit(xs=xs, y=y, force_if_not_good=force_if_not_good, **kwargs) for r in self]
             to_drop = [r for r in self if not r.good]
@@ -625,10 +625,10 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+                if not self._rules[ir].good:
+                    to_drop.append(self._rules[ir])
         else:
             [
                 r.eval(
-- 
2.43.0


From 9bbff6ad41a4e5de275029b1cd3ac8f898c39c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:07 +0000
Subject: [PATCH 31/41] fix: stacked class probabilities, std and success rate
 mistook the class labels "zero" and "" for markers

---
 ruleskit/utils/rfunctions.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d4c992b..dff3585 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -54,9 +54,7 @@ def class_probabilities(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = activation.apply(lambda x: y.where(x == 1))
         count = y_conditional.apply(lambda x: x.value_counts())
         count.index = count.index.astype(y.dtype)
         return count.apply(lambda x: x / x.dropna().sum())
@@ -122,9 +120,7 @@ def conditional_std(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = activation.apply(lambda x: y.where(x == 1))
         return y_conditional.std()
 
 
@@ -398,12 +394,7 @@ def calc_classification_criterion(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation_vector.mul(y.replace(0, "zero"), axis=0)
-            .replace(0, np.nan)
-            .replace("", np.nan)
-            .replace("zero", 0)
-        )
+        y_conditional = activation_vector.apply(lambda x: y.where(x == 1))
         return success_rate(prediction, y_conditional)
 
 
-- 
2.43.0


From 1677ea5a80f96205249b23ebdb2ffb4831383026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:13 +0000
Subject: [PATCH 32/41] fix: stacked classification prediction was misplaced
 when only one point had a unique majority class

---
 ruleskit/utils/rfunctions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index dff3585..0080518 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -595,11 +595,10 @@ def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_ve
         most_freq_pred = prediction_vectors.fillna(value=np.nan).replace("nan", np.nan).mode(axis=1)
     else:
         most_freq_pred = prediction_vectors.mode(axis=1)
-    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].dropna(axis=1).squeeze()
-    # Happens if only on point is activated, in which case 'squeeze' will only extract this point's prediction as a
-    # float, int or str
-    if not isinstance(most_freq_pred, pd.Series):
-        most_freq_pred = pd.Series([most_freq_pred])
+    if len(most_freq_pred.columns) == 0:  # No point is activated
+        return pd.Series(np.nan, index=idx)
+    # If there is only one most frequent prediction, it is in the first column
+    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].iloc[:, 0]
     most_freq_pred.name = None
     return most_freq_pred.reindex(idx)
 
-- 
2.43.0


From 402c2c4e5cf8cb9a882880bb0a4316ac334831fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:08 +0000
Subject: [PATCH 33/41] fix: adding a ruleset shared its stacked activations or
 lost them

---
 ruleskit/ruleset.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 6a4cced..075af9d 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -311,12 +311,17 @@ class RuleSet(ABC):
                         data=np.array(other.activation).T, columns=[str(other.condition)]
                     )
                 else:
-                    self.stacked_activations = other.stacked_activations
+                    self.stacked_activations = other.evaluate_stacked_activations()
             else:
                 if isinstance(other, Rule):
                     self.stacked_activations[str(other.condition)] = other.activation
                 else:
-                    self.stacked_activations = pd.concat([self.stacked_activations, other.stacked_activations], axis=1)
+                    stacked_activations = other.evaluate_stacked_activations()
+                    if stacked_activations is not None:
+                        new = ~stacked_activations.columns.isin(self.stacked_activations.columns)
+                        self.stacked_activations = pd.concat(
+                            [self.stacked_activations, stacked_activations.loc[:, new]], axis=1
+                        )
 
     def set_features_indexes(self):
         if len(self.__class__.all_features_indexes) > 0:
-- 
2.43.0


From a5a6aabc07b99b172ebee49ac9f4d6e4811c38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:51 +0000
Subject: [PATCH 34/41] fix: profiling attributes failed on lasy activations
 before their first read

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 5132a67..84a2977 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -833,6 +833,8 @@ class Activation(ABC):
         if not out:
             if self._sizeof_raw == -1:
                 self._sizeof_raw = value.nbytes / 1e6
+            if self._length is None:
+                self._length = len(value)
             if self._nones is None:
                 self._nones = np.count_nonzero(value == 1)
             stat = path.stat()
-- 
2.43.0


From 73c0e76decf8a6f7358eef9b4b12a7420a873a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:36 +0000
Subject: [PATCH 35/41] fix: profiling attributes removed the file of the
 vector, or failed, when no free name was found

---
 ruleskit/activation.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 84a2977..e31e4f7 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -1485,8 +1485,8 @@ class Activation(ABC):
         if self._sizeof_path == -1 and Activation.FORCE_STAT:
             data = self.data
             fmt = self.data_format
-            self._write(self.raw)
-            self.data.unlink()
+            if self._write(self.raw):
+                self.data.unlink()
             self.data = data
             self.data_format = fmt
         return self._sizeof_path
@@ -1499,8 +1499,8 @@ class Activation(ABC):
         if self._sizeof_file == -1 and Activation.FORCE_STAT:
             data = self.data
             fmt = self.data_format
-            self._write(self.raw)
-            self.data.unlink()
+            if self._write(self.raw):
+                self.data.unlink()
             self.data = data
             self.data_format = fmt
         return self._sizeof_file
@@ -1558,8 +1558,8 @@ class Activation(ABC):
         if self._time_write == -1 and Activation.FORCE_STAT:
             data = self.data
             fmt = self.data_format
-            self._write(self.raw)
-            self.data.unlink()
+            if self._write(self.raw):
+                self.data.unlink()
             self.data = data
             self.data_format = fmt
         return self._time_write
@@ -1572,9 +1572,9 @@ class Activation(ABC):
         if self._time_read == -1 and Activation.FORCE_STAT:
             data = self.data
             fmt = self.data_format
-            self._write(self.raw)
-            _ = self._read(self.data, out=False)
-            self.data.unlink()
+            if self._write(self.raw):
+                _ = self._read(self.data, out=False)
+                self.data.unlink()
             self.data = data
             self.data_format = fmt
         return self._time_read
-- 
2.43.0


From 112d44b812cec67a0bfac3ae13c0cf29cc318e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:54 +0000
Subject: [PATCH 36/41] fix: dropping a bad rule also dropped the good rules
 having the same condition

---
 ruleskit/ruleset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 075af9d..2fe6d55 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -440,7 +440,7 @@ class RuleSet(ABC):
             to_drop = [r for r in self if not r.good]
 
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
+            rules = [r for r in self.rules if r.good]
             self._rules = []
             if self._activation is not None:
                 self._activation.clear()
@@ -644,7 +644,7 @@ class RuleSet(ABC):
             to_drop = [r for r in self if not r.good]
 
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
+            rules = [r for r in self.rules if r.good]
             self._rules = []
             if self._activation is not None:
                 self._activation.clear()
-- 
2.43.0


From b30a05e5e013cf36c7b7d019c26b0c8d5b8ead03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:37 +0000
Subject: [PATCH 37/41] fix: criterion of a classification ruleset failed when
 no point had a prediction

---
 ruleskit/utils/rfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 0080518..1090133 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -318,7 +318,10 @@ def success_rate(
     elif isinstance(y, np.ndarray) and isinstance(prediction, pd.Series):
         if len(y) == 0:
             return pd.Series(dtype=int)
-        return sum(prediction == y) / len(prediction.dropna())
+        predicted = len(prediction.dropna())
+        if predicted == 0:
+            return np.nan
+        return sum(prediction == y) / predicted
     else:
         if not isinstance(y, pd.DataFrame):
             raise TypeError(
-- 
2.43.0


From 8872a1da9fc3e13bfca706ba3134e4ba4c2b528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:16 +0000
Subject: [PATCH 38/41] fix: rulesets predicting class labels such as "class
 one" could be saved but not loaded

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 2fe6d55..5e65809 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1040,7 +1040,7 @@ class RuleSet(ABC):
                     if rule_ind == "prediction":  # Prediction can be a str in case of classification
                         try:
                             setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-                        except ValueError:
+                        except (ValueError, SyntaxError):
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
                         setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-- 
2.43.0


From a034c781e421242d449bb144c82edaefc0122933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:53 +0000
Subject: [PATCH 39/41] fix: class labels such as "NA", "null", "true" or "01"
 were changed by saving and loading a ruleset

---
 ruleskit/ruleset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 5e65809..0b29b5e 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -894,7 +894,8 @@ class RuleSet(ABC):
         if hasattr(path, "read"):
             rules = path.read(**kwargs)
         else:
-            rules = pd.read_csv(path, **kwargs)
+            # Everything was saved as text : do not let pandas take class labels like "NA" or "true" for something else
+            rules = pd.read_csv(path, **{"dtype": str, "keep_default_na": False, "na_values": [""], **kwargs})
         if "ruleset coverage" in rules.iloc[:, 0].values:
             self._coverage = float(rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
-- 
2.43.0


From c9555903f84bc38c8fe741d934c1cd4a4206b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:01 +0000
Subject: [PATCH 40/41] fix: load a class label on which literal_eval raises
 another of its documented errors

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 0b29b5e..7fb8278 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1041,7 +1041,7 @@ class RuleSet(ABC):
                     if rule_ind == "prediction":  # Prediction can be a str in case of classification
                         try:
                             setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-                        except (ValueError, SyntaxError):
+                        except (ValueError, TypeError, SyntaxError, MemoryError, RecursionError):  # See literal_eval
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
                         setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-- 
2.43.0


From a0f765df0a73677ca397cbe9efc688fd50149cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:49 +0000
Subject: [PATCH 41/41] fix: threshold limits named after a numpy or not yet
 known attribute made fitting fail

---
 ruleskit/thresholds.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ruleskit/thresholds.py b/ruleskit/thresholds.py
index 2cab835..cad2aee 100644
--- a/ruleskit/thresholds.py
+++ b/ruleskit/thresholds.py
@@ -1,5 +1,6 @@
 import math
 import logging
+from numbers import Real
 from copy import copy
 from typing import Union
 from pathlib import Path
@@ -73,12 +74,15 @@ class Thresholds:
             value = Thresholds.KWOWN_ARGS[threshold["arg"]](value)
             s = f"{threshold['arg']}({tkey})"
 
-        for lim in threshold:
+        for lim in list(threshold):
             if lim == "arg":
                 continue
             if isinstance(threshold[lim], str):
                 threshold[lim] = getattr(rule, threshold[lim])
-            if not isinstance(threshold[lim], (int, float)):
+                if threshold[lim] is None:
+                    del threshold[lim]  # not known (yet): nothing to compare the value to
+                    continue
+            if not isinstance(threshold[lim], Real):
                 raise TypeError(f"Value in threshols can only be float or int, got {type(threshold[lim])}")
 
         if "min" in threshold and value < threshold["min"]:
-- 
2.43.0

