From 3434997ef9e2e36076007d9e32d7ec630db865ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 01/48] fix: LZ77 and LZSS codes accept source alphabets larger
 than 256

---
 src/komm/_lossless_coding/LempelZiv77Code.py | 6 ++++--
 src/komm/_lossless_coding/LempelZivSSCode.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 6e998a2..bee80ca 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -105,7 +105,9 @@ class LempelZiv77Code:
         """
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
-        buffer = bytes(self.search_buffer + source.tolist())
+        symbols = self.search_buffer + source.tolist()
+        ranks = {x: i for i, x in enumerate(set(symbols))}
+        buffer = "".join(chr(ranks[x]) for x in symbols)  # Any alphabet size
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZ77", delay=2.5)
@@ -117,7 +119,7 @@ class LempelZiv77Code:
                 if p >= 0:
                     break
                 l -= 1
-            tokens.append((p, l, buffer[i + l]))
+            tokens.append((p, l, symbols[i + l]))
             i += l + 1
             pbar.update(l + 1)
 
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 4146c43..0eea573 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -121,7 +121,9 @@ class LempelZivSSCode:
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
         break_even = self.break_even
-        buffer = bytes(self.search_buffer + source.tolist())
+        symbols = self.search_buffer + source.tolist()
+        ranks = {x: i for i, x in enumerate(set(symbols))}
+        buffer = "".join(chr(ranks[x]) for x in symbols)  # Any alphabet size
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZSS", delay=2.5)
@@ -138,7 +140,7 @@ class LempelZivSSCode:
                 i += l
                 pbar.update(l)
             else:  # Literal
-                tokens.append((0, buffer[i]))
+                tokens.append((0, symbols[i]))
                 i += 1
                 pbar.update(1)
 
-- 
2.43.0


From 77f91fa95685b41d9894f920928562c4adf84a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 02/48] fix: exact field widths in Lempel-Ziv codes

---
 src/komm/_lossless_coding/LempelZiv77Code.py    | 10 ++++------
 src/komm/_lossless_coding/LempelZiv78Code.py    | 11 +++++------
 src/komm/_lossless_coding/LempelZivSSCode.py    | 10 +++++-----
 src/komm/_lossless_coding/LempelZivWelchCode.py | 11 +++++------
 src/komm/_lossless_coding/util.py               |  9 +++++++++
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index bee80ca..0e824b1 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -1,11 +1,9 @@
-from math import ceil, log
-
 import numpy as np
 import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[int, int, int]
 
@@ -84,9 +82,9 @@ class LempelZiv77Code:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = ceil_log(self.search_size, calY)
+        l_width = ceil_log(self.lookahead_size, calY)
+        x_width = ceil_log(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     def source_to_tokens(self, source: npt.ArrayLike) -> list[Token]:
diff --git a/src/komm/_lossless_coding/LempelZiv78Code.py b/src/komm/_lossless_coding/LempelZiv78Code.py
index 786bfcc..33dd42b 100644
--- a/src/komm/_lossless_coding/LempelZiv78Code.py
+++ b/src/komm/_lossless_coding/LempelZiv78Code.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[int, int]
 
@@ -93,10 +92,10 @@ class LempelZiv78Code:
             array([1, 0, 0, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0])
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = ceil_log(calX, calY)
         target: list[int] = []
         for i, (p, x) in enumerate(tokens):
-            k = ceil(log(i + 1, calY))
+            k = ceil_log(i + 1, calY)
             target.extend(integer_to_symbols(p, base=calY, width=k))
             if x >= 0:
                 target.extend(integer_to_symbols(x, base=calY, width=M))
@@ -112,12 +111,12 @@ class LempelZiv78Code:
             [(0, 1), (0, 0), (1, 1), (2, 1), (4, 0), (2, 0)]
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = ceil_log(calX, calY)
         target = np.asarray(target, dtype=int)
         tokens: list[Token] = []
         i = 0
         while i < target.size:
-            k = ceil(log(len(tokens) + 1, calY))
+            k = ceil_log(len(tokens) + 1, calY)
             p = int(symbols_to_integer(target[i : i + k], base=calY))
             i += k
             if i < target.size:
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 0eea573..40f381d 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -1,4 +1,4 @@
-from math import ceil, log
+from math import ceil
 from typing import Literal
 
 import numpy as np
@@ -6,7 +6,7 @@ import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[Literal[0], int] | tuple[Literal[1], int, int]
 
@@ -85,9 +85,9 @@ class LempelZivSSCode:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = ceil_log(self.search_size, calY)
+        l_width = ceil_log(self.lookahead_size, calY)
+        x_width = ceil_log(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     @property
diff --git a/src/komm/_lossless_coding/LempelZivWelchCode.py b/src/komm/_lossless_coding/LempelZivWelchCode.py
index 874c564..6639e78 100644
--- a/src/komm/_lossless_coding/LempelZivWelchCode.py
+++ b/src/komm/_lossless_coding/LempelZivWelchCode.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, ceil_log, integer_to_symbols, symbols_to_integer
 
 
 @dataclass
@@ -65,14 +64,14 @@ class LempelZivWelchCode:
             if word + (symbol,) in dictionary:
                 word += (symbol,)
                 continue
-            k = ceil(log(len(dictionary), calY))
+            k = ceil_log(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
             dictionary[word + (symbol,)] = len(dictionary)
             word = (symbol,)
 
         if word:
-            k = ceil(log(len(dictionary), calY))
+            k = ceil_log(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
 
@@ -106,7 +105,7 @@ class LempelZivWelchCode:
         dictionary: dict[int, Word] = {s: (s,) for s in range(calX)}
         output: list[int] = []
 
-        k = ceil(log(calX, calY))
+        k = ceil_log(calX, calY)
         pointer = symbols_to_integer(input[:k], base=calY)
         old = dictionary[pointer]
         output.extend(old)
@@ -114,7 +113,7 @@ class LempelZivWelchCode:
         i = k
         pbar = tqdm(total=input.size, desc="Decompressing LZW", delay=2.5, initial=k)
         while True:
-            k = ceil(log(len(dictionary) + 1, calY))
+            k = ceil_log(len(dictionary) + 1, calY)
             if i + k > input.size:
                 break
             pointer = symbols_to_integer(input[i : i + k], base=calY)
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index c56da84..4f7bb18 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -177,6 +177,15 @@ def canonical_code(lengths: npt.ArrayLike, base: int = 2) -> list[Word]:
     return codewords
 
 
+def ceil_log(x: int, base: int) -> int:
+    # Exact ceil(log(x)) to the given base, for x >= 1.
+    width, power = 0, 1
+    while power < x:
+        power *= base
+        width += 1
+    return width
+
+
 def integer_to_symbols(integer: int, base: int, width: int) -> Word:
     symbols: list[int] = []
     for _ in range(width):
-- 
2.43.0


From d41ef301bb6a6516631fd8029c4250b9cce07fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 03/48] fix: Tunstall code uses all target words when they
 divide evenly

---
 src/komm/_lossless_coding/TunstallCode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/TunstallCode.py b/src/komm/_lossless_coding/TunstallCode.py
index 82136a1..91bd100 100644
--- a/src/komm/_lossless_coding/TunstallCode.py
+++ b/src/komm/_lossless_coding/TunstallCode.py
@@ -104,7 +104,7 @@ def tunstall_code(
             return -self.probability < -other.probability
 
     S, n = pmf.size, target_block_size
-    K = ceil((2**n - S) / (S - 1)) - 1  # See [Say06, p. 70]
+    K = (2**n - S) // (S - 1)  # See [Say06, p. 70]
     size = S + K * (S - 1)
 
     pbar = tqdm(desc="Generating Tunstall code", total=K * S + size, delay=2.5)
-- 
2.43.0


From 83294133b542d9c3e9c763421ea89c4e667b98c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 04/48] fix: fixed-to-variable code keeps source words in
 lexicographic order

---
 src/komm/_lossless_coding/FixedToVariableCode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/FixedToVariableCode.py b/src/komm/_lossless_coding/FixedToVariableCode.py
index 8975e4f..a0ae07f 100644
--- a/src/komm/_lossless_coding/FixedToVariableCode.py
+++ b/src/komm/_lossless_coding/FixedToVariableCode.py
@@ -36,7 +36,7 @@ class FixedToVariableCode:
         self._source_cardinality = source_cardinality
         self._target_cardinality = target_cardinality
         self._source_block_size = source_block_size
-        self._enc_mapping = enc_mapping
+        self._enc_mapping = dict(sorted(enc_mapping.items()))  # Lexicographic order
         self.__post_init__()
 
     def __post_init__(self) -> None:
-- 
2.43.0


From bf2b6224cdf302f63ade5c11bbdaba9b6066491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 05/48] fix: fixed-to-variable code refuses empty codewords

---
 src/komm/_lossless_coding/FixedToVariableCode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/FixedToVariableCode.py b/src/komm/_lossless_coding/FixedToVariableCode.py
index a0ae07f..bfb249b 100644
--- a/src/komm/_lossless_coding/FixedToVariableCode.py
+++ b/src/komm/_lossless_coding/FixedToVariableCode.py
@@ -51,7 +51,9 @@ class FixedToVariableCode:
             raise ValueError("'source_block_size' must be at least 1")
         if set(domain) != set(product(range(calX), repeat=k)):
             raise ValueError("'enc_mapping': invalid domain")
-        if not all(all(0 <= x < calY for x in word) for word in codomain):
+        if not all(
+            all(0 <= x < calY for x in word) and len(word) > 0 for word in codomain
+        ):
             raise ValueError("'enc_mapping': invalid co-domain")
 
     def __repr__(self) -> str:
-- 
2.43.0


From 2aedc92b7f2aa7a36bc096a569379e3210c1d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 06/48] fix: SystematicBlockCode refuses information sets that
 are not k-sublists of range(n)

---
 src/komm/_error_control_block/SystematicBlockCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index bb4a169..5f92d2c 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -68,7 +68,8 @@ class SystematicBlockCode(abc.BlockCode):
         if (
             self.information_set.size != k
             or self.information_set.min() < 0
-            or self.information_set.max() > n
+            or self.information_set.max() >= n
+            or np.unique(self.information_set).size != k
         ):
             raise ValueError("'information_set' must be a 'k'-sublist of 'range(n)'")
 
-- 
2.43.0


From 24cfdd6a854595fc30878f824c7627f904450bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 07/48] fix: CyclicCode refuses being given both polynomials

---
 src/komm/_error_control_block/CyclicCode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/komm/_error_control_block/CyclicCode.py b/src/komm/_error_control_block/CyclicCode.py
index 0e9d615..39c5618 100644
--- a/src/komm/_error_control_block/CyclicCode.py
+++ b/src/komm/_error_control_block/CyclicCode.py
@@ -60,6 +60,11 @@ class CyclicCode(abc.BlockCode):
             raise ValueError(
                 "either 'generator_polynomial' or 'check_polynomial' must be provided"
             )
+        if generator_polynomial is not None and check_polynomial is not None:
+            raise ValueError(
+                "only one of 'generator_polynomial' or 'check_polynomial' must be"
+                " provided"
+            )
         modulus = BinaryPolynomial.from_exponents([0, self.length])
         if generator_polynomial is not None and check_polynomial is None:
             self.generator_polynomial = BinaryPolynomial(generator_polynomial)
-- 
2.43.0


From c41f6c60c4b145ef0a000683b60508106995b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 08/48] fix: CyclicCode.check agrees with check_matrix when
 non-systematic

---
 src/komm/_error_control_block/CyclicCode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_error_control_block/CyclicCode.py b/src/komm/_error_control_block/CyclicCode.py
index 39c5618..2f4b252 100644
--- a/src/komm/_error_control_block/CyclicCode.py
+++ b/src/komm/_error_control_block/CyclicCode.py
@@ -212,6 +212,8 @@ class CyclicCode(abc.BlockCode):
             See [`BlockCode.check`](/ref/BlockCode#check) for examples.
             </span>
         """
+        if not self.systematic:
+            return super().check(input)
 
         @blockwise(self.length)
         @vectorize
-- 
2.43.0


From 4b115fbbc728103aeaa8f835997c6329ccd6b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 09/48] fix: coset leaders terminate for codes without
 redundancy

---
 src/komm/_error_control_block/base.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/komm/_error_control_block/base.py b/src/komm/_error_control_block/base.py
index 7b8dcda..49482ff 100644
--- a/src/komm/_error_control_block/base.py
+++ b/src/komm/_error_control_block/base.py
@@ -204,7 +204,7 @@ class BlockCode(ABC):
             delay=2.5,
             initial=1,
         )
-        while True:
+        while count < 2**m:
             next_syndromes: list[int] = []
             for s in syndromes:
                 for j, h in enumerate(H_cols):
@@ -217,11 +217,10 @@ class BlockCode(ABC):
                     next_syndromes.append(s0)
                     count += 1
                     pbar.update()
-                    if count == 2**m:
-                        self._cached_coset_leaders = True
-                        pbar.close()
-                        return leaders
             syndromes = next_syndromes
+        self._cached_coset_leaders = True
+        pbar.close()
+        return leaders
 
     @cache
     @abstractmethod
@@ -245,8 +244,8 @@ class BlockCode(ABC):
             delay=2.5,
             initial=1,
         )
-        while True:
-            distribution[weight] = len(syndromes)
+        distribution[0] = 1
+        while count < 2**m:
             next_syndromes: list[int] = []
             for s in syndromes:
                 for h in H_cols:
@@ -257,12 +256,11 @@ class BlockCode(ABC):
                     next_syndromes.append(s0)
                     count += 1
                     pbar.update()
-                    if count == 2**m:
-                        distribution[weight + 1] = len(next_syndromes)
-                        pbar.close()
-                        return distribution
             syndromes = next_syndromes
             weight += 1
+            distribution[weight] = len(syndromes)
+        pbar.close()
+        return distribution
 
     @cache
     @abstractmethod
-- 
2.43.0


From 0ae9c2118007fe7d52e9168c1fed38c00a436beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 10/48] fix: BinaryPolynomial.coefficients honours width 0

---
 src/komm/_algebra/BinaryPolynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index c5b30ef..fdcb3af 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -182,7 +182,9 @@ class BinaryPolynomial:
             >>> poly.coefficients(width=8)
             array([0, 1, 0, 1, 1, 0, 0, 0])
         """
-        return int_to_bits(self.value, width=width or max(self.degree + 1, 1))
+        if width is None:
+            width = max(self.degree + 1, 1)
+        return int_to_bits(self.value, width=width)
 
     def exponents(self) -> npt.NDArray[np.integer]:
         r"""
-- 
2.43.0


From fa5d70baf1c2c6053a67719c11a3e5c7469bf4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 11/48] fix: boolean generator, check and parity matrices are
 binary matrices

---
 src/komm/_error_control_block/BlockCode.py           | 4 ++--
 src/komm/_error_control_block/SystematicBlockCode.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_error_control_block/BlockCode.py b/src/komm/_error_control_block/BlockCode.py
index 4edea20..e0e6606 100644
--- a/src/komm/_error_control_block/BlockCode.py
+++ b/src/komm/_error_control_block/BlockCode.py
@@ -64,13 +64,13 @@ class BlockCode(abc.BlockCode):
                 "only one of 'generator_matrix' or 'check_matrix' must be provided"
             )
         if generator_matrix is not None:
-            self._generator_matrix = np.asarray(generator_matrix)
+            self._generator_matrix = np.asarray(generator_matrix, dtype=int)
             self._check_matrix = None
             self._dimension, self._length = self._generator_matrix.shape
             self._redundancy = self._length - self._dimension
         else:  # check_matrix is not None
             self._generator_matrix = None
-            self._check_matrix = np.asarray(check_matrix)
+            self._check_matrix = np.asarray(check_matrix, dtype=int)
             self._redundancy, self._length = self._check_matrix.shape
             self._dimension = self._length - self._redundancy
 
diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index 5f92d2c..7a4844b 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -52,7 +52,7 @@ class SystematicBlockCode(abc.BlockCode):
         parity_submatrix: npt.ArrayLike,
         information_set: Literal["left", "right"] | npt.ArrayLike = "left",
     ):
-        self.parity_submatrix = np.asarray(parity_submatrix)
+        self.parity_submatrix = np.asarray(parity_submatrix, dtype=int)
         n, k, m = self.length, self.dimension, self.redundancy
         if isinstance(information_set, str):
             if information_set == "left":
-- 
2.43.0


From f581612b71032e9754df76d99a7967b4f2f64833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 12/48] fix: Reed decoder accepts words of any numeric type

---
 src/komm/_error_control_decoders/ReedDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/ReedDecoder.py b/src/komm/_error_control_decoders/ReedDecoder.py
index f567cee..b76ef6a 100644
--- a/src/komm/_error_control_decoders/ReedDecoder.py
+++ b/src/komm/_error_control_decoders/ReedDecoder.py
@@ -48,7 +48,7 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
         @vectorize
         def decode_hard(r: npt.NDArray[np.integer]):
             u_hat = np.empty(self.code.dimension, dtype=int)
-            bx = r.copy()
+            bx = r.astype(int)
             for i, partition in enumerate(self._reed_partitions):
                 checksums = np.count_nonzero(bx[partition], axis=1) % 2
                 u_hat[i] = np.count_nonzero(checksums) > len(checksums) // 2
-- 
2.43.0


From 8978b897985bba5166793b1f030b369a7996056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 13/48] fix: Viterbi algorithm returns the input of the chosen
 edge when transitions are parallel

---
 src/komm/_finite_state_machine/MealyMachine.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index fb01942..698cfbb 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -211,6 +211,7 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         choices = np.zeros((L, num_states), dtype=int)
+        choice_inputs = np.zeros((L, num_states), dtype=int)
         metrics = np.full((L + 1, num_states), fill_value=np.inf)
         if initial_metrics is None:
             metrics[0, :] = np.zeros(num_states, dtype=float)
@@ -218,20 +219,22 @@ class MealyMachine:
             metrics[0, :] = initial_metrics
         for t, z in enumerate(observed):
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                for x, (s1, y) in enumerate(
+                    zip(self.transitions[s0], self.outputs[s0])
+                ):
                     candidate_metrics = metrics[t, s0] + metric_function(y, z)
                     if candidate_metrics < metrics[t + 1, s1]:
                         metrics[t + 1, s1] = candidate_metrics
                         choices[t, s1] = s0
+                        choice_inputs[t, s1] = x
 
         # Backtrack
         input_hat = np.empty((L, num_states), dtype=int)
         for final_state in range(num_states):
             s1 = final_state
             for t in reversed(range(L)):
-                s0 = choices[t, s1]
-                input_hat[t, final_state] = self.input_edges[s0, s1]
-                s1 = s0
+                input_hat[t, final_state] = choice_inputs[t, s1]
+                s1 = choices[t, s1]
 
         return input_hat, metrics[L, :]
 
-- 
2.43.0


From d666c23a8ce66beddb02f72e92782e1d2baa7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 14/48] fix: forward-backward algorithm keeps parallel
 transitions apart

---
 src/komm/_finite_state_machine/MealyMachine.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index 698cfbb..47e99cd 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -321,7 +321,7 @@ class MealyMachine:
         if final_state_distribution is None:
             final_state_distribution = np.ones(num_states) / num_states
 
-        log_gamma = np.full((L, num_states, num_states), fill_value=-np.inf)
+        log_gamma = np.full((L, num_states, num_input_symbols), fill_value=-np.inf)
         log_alpha = np.full((L + 1, num_states), fill_value=-np.inf)
         log_beta = np.full((L + 1, num_states), fill_value=-np.inf)
 
@@ -332,19 +332,20 @@ class MealyMachine:
 
         for t, z in enumerate(observed):
             for x, s0 in product(range(num_input_symbols), range(num_states)):
-                y, s1 = self.outputs[s0, x], self.transitions[s0, x]
-                log_gamma[t, s0, s1] = log_input_priors[t, x] + metric_function(y, z)
+                y = self.outputs[s0, x]
+                log_gamma[t, s0, x] = log_input_priors[t, x] + metric_function(y, z)
 
         for t in range(0, L - 1):
             for s1 in range(num_states):
+                s0s, xs = np.nonzero(self.transitions == s1)
                 log_alpha[t + 1, s1] = np.logaddexp.reduce(
-                    log_gamma[t, :, s1] + log_alpha[t, :]
+                    log_gamma[t, s0s, xs] + log_alpha[t, s0s]
                 )
 
         for t in range(L - 1, -1, -1):
             for s0 in range(num_states):
                 log_beta[t, s0] = np.logaddexp.reduce(
-                    log_gamma[t, s0, :] + log_beta[t + 1, :]
+                    log_gamma[t, s0, :] + log_beta[t + 1, self.transitions[s0]]
                 )
 
         log_input_posteriors = np.empty((L, num_input_symbols), dtype=float)
@@ -354,7 +355,7 @@ class MealyMachine:
                 for s0 in range(num_states):
                     s1 = self.transitions[s0, x]
                     edge_labels[s0] = (
-                        log_alpha[t, s0] + log_gamma[t, s0, s1] + log_beta[t + 1, s1]
+                        log_alpha[t, s0] + log_gamma[t, s0, x] + log_beta[t + 1, s1]
                     )
                 log_input_posteriors[t, x] = np.logaddexp.reduce(edge_labels)
 
-- 
2.43.0


From d20f034954849a8a809e5bc3b311ef6ba1f84ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 15/48] fix: streaming Viterbi decides on the survivor of the
 best current state

---
 src/komm/_finite_state_machine/MealyMachine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index 47e99cd..e8bfaa7 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -271,8 +271,8 @@ class MealyMachine:
                         choices[s1] = s0
 
             s_star = np.argmin(new_metrics)
-            s0, s1 = memory["paths"][s_star, :2]
-            input_hat[t] = self.input_edges[s0, s1]
+            path = np.append(memory["paths"][choices[s_star]], s_star)
+            input_hat[t] = self.input_edges[path[0], path[1]]
 
             memory["metrics"] = np.roll(memory["metrics"], shift=-1, axis=1)
             memory["metrics"][:, -1] = new_metrics
-- 
2.43.0


From 862ac98f78d96257280a615b34ffd39c3559efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 16/48] fix: streaming Viterbi keeps the inputs of parallel
 transitions

---
 .../_finite_state_machine/MealyMachine.py     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index e8bfaa7..4bfe54d 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -1,7 +1,7 @@
 from collections.abc import Callable
 from functools import cached_property
 from itertools import product
-from typing import Any, TypedDict
+from typing import Any, NotRequired, TypedDict
 
 import numpy as np
 import numpy.typing as npt
@@ -9,6 +9,7 @@ import numpy.typing as npt
 
 class MetricMemory(TypedDict):
     paths: npt.NDArray[np.integer]
+    inputs: NotRequired[npt.NDArray[np.integer]]
     metrics: npt.NDArray[np.floating]
 
 
@@ -252,7 +253,7 @@ class MealyMachine:
 
             metric_function: The metric function $\mathcal{Y} \times \mathcal{Z} \to \mathbb{R}$.
 
-            memory: The metrics for each state. It must be a dictionary containing two keys: `'paths'`, a 2D-array of integers of shape $|\mathcal{S}| \times (\tau + 1)$; and `'metrics'`, a 2D-array of floats of shape $|\mathcal{S}| \times (\tau + 1)$. This dictionary is updated in-place by this method.
+            memory: The metrics for each state. It must be a dictionary containing two keys: `'paths'`, a 2D-array of integers of shape $|\mathcal{S}| \times (\tau + 1)$; and `'metrics'`, a 2D-array of floats of shape $|\mathcal{S}| \times (\tau + 1)$. It may also contain the key `'inputs'`, a 2D-array of integers of shape $|\mathcal{S}| \times \tau$ with the inputs along the paths; by default, they are obtained from `'paths'`. This dictionary is updated in-place by this method.
 
         Returns:
             input_hat: The most probable input sequence $\hat{x} \in \mathcal{X}^L$
@@ -260,19 +261,27 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         input_hat = np.empty(L, dtype=int)
+        if "inputs" not in memory:
+            paths = memory["paths"]
+            memory["inputs"] = self.input_edges[paths[:, :-1], paths[:, 1:]]
         for t, z in enumerate(observed):
             new_metrics = np.full(num_states, fill_value=np.inf)
             choices = np.zeros(num_states, dtype=int)
+            choice_inputs = np.zeros(num_states, dtype=int)
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                for x, (s1, y) in enumerate(
+                    zip(self.transitions[s0], self.outputs[s0])
+                ):
                     candidate_metric = memory["metrics"][s0, -1] + metric_function(y, z)
                     if candidate_metric < new_metrics[s1]:
                         new_metrics[s1] = candidate_metric
                         choices[s1] = s0
+                        choice_inputs[s1] = x
 
             s_star = np.argmin(new_metrics)
-            path = np.append(memory["paths"][choices[s_star]], s_star)
-            input_hat[t] = self.input_edges[path[0], path[1]]
+            inputs = np.column_stack([memory["inputs"][choices], choice_inputs])
+            input_hat[t] = inputs[s_star, 0]
+            memory["inputs"] = inputs[:, 1:]
 
             memory["metrics"] = np.roll(memory["metrics"], shift=-1, axis=1)
             memory["metrics"][:, -1] = new_metrics
-- 
2.43.0


From 958d116bac85465616b807ae4faffacf635deebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 17/48] fix: Viterbi stream decoder with a nonzero initial
 state

---
 src/komm/_error_control_convolutional/ViterbiStreamDecoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py b/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
index f6a9134..a70d1b8 100644
--- a/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
+++ b/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
@@ -32,8 +32,10 @@ class ViterbiStreamDecoder:
         num_states, traceback_length = self._fsm.num_states, self.traceback_length
         self.memory: MetricMemory = {
             "paths": np.zeros((num_states, traceback_length + 1), dtype=int),
+            "inputs": np.zeros((num_states, traceback_length), dtype=int),
             "metrics": np.full((num_states, traceback_length + 1), fill_value=np.inf),
         }
+        self.memory["paths"][:, -1] = np.arange(num_states)
         self.memory["metrics"][self.state, -1] = 0.0
 
     @cached_property
-- 
2.43.0


From 88e853c34b36b4501d7fac6eae61bc9bf6859451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 18/48] fix: zero termination of convolutional codes without
 memory

---
 .../TerminatedConvolutionalCode.py                          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 086277e..89976ef 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -248,6 +248,8 @@ class ZeroTermination(TerminationStrategy):
         for _ in range(1, h + μ):
             A_pow.append((A_pow[-1] @ A_mat) % 2)
         M_info = np.vstack([B_mat @ A_pow[j] % 2 for j in range(h + μ - 1, μ - 1, -1)])
+        if μ == 0:
+            return np.zeros((M_info.shape[0], 0), dtype=int)
         M_tail = np.vstack([B_mat @ A_pow[j] % 2 for j in range(μ - 1, -1, -1)])
         return M_info @ pseudo_inverse(M_tail) % 2
 
@@ -270,7 +272,7 @@ class ZeroTermination(TerminationStrategy):
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.integer]:
         μ = self.convolutional_code.memory_order
-        x_hat = xs_hat[:, 0][:-μ]
+        x_hat = xs_hat[: len(xs_hat) - μ, 0]
         return x_hat
 
     def bcjr_initial_final_distributions(
@@ -284,7 +286,7 @@ class ZeroTermination(TerminationStrategy):
         self, posteriors: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.floating]:
         μ = self.convolutional_code.memory_order
-        return posteriors[:-μ]
+        return posteriors[: len(posteriors) - μ]
 
 
 class TailBiting(TerminationStrategy):
-- 
2.43.0


From b53dcd0d105dd500e92a92af524a3b540e87ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 19/48] fix: BCJR decoder bit order within an information block

---
 src/komm/_error_control_decoders/BCJRDecoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index d82c526..b471ec8 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -8,7 +8,7 @@ from .. import abc
 from .._error_control_convolutional.TerminatedConvolutionalCode import (
     TerminatedConvolutionalCode,
 )
-from .._labelings.NaturalLabeling import NaturalLabeling
+from .._labelings.Labeling import Labeling
 from .._util.bit_operations import int_to_bits
 from .._util.decorators import blockwise, vectorize, with_pbar
 from .util import get_pbar
@@ -47,7 +47,7 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         )
         self._post_process_output = self.code.strategy.bcjr_post_process_output
         self._cache_polar = (-1) ** int_to_bits(range(2**n), width=n)
-        self._labeling = NaturalLabeling(k)
+        self._labeling = Labeling(int_to_bits(range(2**k), width=k))
 
     def _metric_function(self, y: int, z: float) -> float:
         return 0.5 * np.dot(self._cache_polar[y], z)
-- 
2.43.0


From 6c4280c28fa5c9c9470562fb9e6104d70a1adc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 20/48] fix: high-rate convolutional codes of degree zero

---
 .../_error_control_convolutional/HighRateConvolutionalCode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
index 3801b13..9863a02 100644
--- a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
@@ -205,12 +205,12 @@ class HighRateConvolutionalCode(abc.ConvolutionalCode):
         beta = np.fliplr(beta)
         alpha = np.array([self.h_row[-1].coefficients(σ + 1)])
         alpha = np.fliplr(alpha)
-        A_mat = np.vstack([np.eye(σ - 1, σ, k=1, dtype=int), alpha[:, :-1]])
+        A_mat = np.vstack([np.eye(σ, σ, k=1, dtype=int)[:-1], alpha[:, :-1]])[:σ]
         B_mat = np.empty((n - 1, σ), dtype=int)
         for j in range(σ):
             B_mat[:, j] = beta[:, j] ^ (alpha[0, j] * beta[:, -1])
         C_mat = np.zeros((σ, n), dtype=int)
-        C_mat[-1, -1] = 1
+        C_mat[-1:, -1] = 1
         D_mat = np.hstack([np.eye(n - 1, dtype=int), beta[:, -1:]])
         return A_mat, B_mat, C_mat, D_mat
 
-- 
2.43.0


From 1209a119025537666cde2b2689a9fae26e6b2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 21/48] fix: tail-biting is refused where no tail-biting path
 exists

---
 .../TerminatedConvolutionalCode.py                    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 89976ef..b544a5e 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -295,8 +295,15 @@ class TailBiting(TerminationStrategy):
         # See [WBR01, eq. (4)].
         h = self.num_blocks
         σ = self.convolutional_code.degree
-        A_mat, _, _, _ = self.convolutional_code.state_space_representation()
-        return pseudo_inverse((matrix_power(A_mat, h) + np.eye(σ, dtype=int)) % 2)
+        A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
+        M_loop = (matrix_power(A_mat, h) + np.eye(σ, dtype=int)) % 2
+        M_inv = pseudo_inverse(M_loop)
+        M_zs = np.vstack([B_mat @ matrix_power(A_mat, j) % 2 for j in range(h)])
+        if np.any((M_zs @ M_inv @ M_loop - M_zs) % 2):
+            raise ValueError(
+                f"tail-biting is not possible for this code with {h} information blocks"
+            )
+        return M_inv
 
     def pre_process_input(self, input: npt.ArrayLike) -> npt.NDArray[np.integer]:
         return np.asarray(input)
-- 
2.43.0


From f45f5585b12941f617da98bf2943dbb2a743c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 22/48] fix: invariant factors divide one another, so
 catastrophic encoders are recognised

---
 src/komm/_util/matrices.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/komm/_util/matrices.py b/src/komm/_util/matrices.py
index 3543e94..ed79d6c 100644
--- a/src/komm/_util/matrices.py
+++ b/src/komm/_util/matrices.py
@@ -266,4 +266,16 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
         for j in range(n):
             matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
 
+    # Start over with an element of smaller degree, if the first row and column
+    # are not clear yet or if some element is not a multiple of the first one
+    for i, j in product(range(k), range(n)):
+        q, r = divmod(BP(matrix[i, j]), a0)
+        if (i, j) != (0, 0) and (r != 0 or (0 in (i, j) and matrix[i, j] != 0)):
+            if i != 0 and j != 0:
+                for l in range(n):
+                    matrix[0, l] = BP(matrix[0, l]) + BP(matrix[i, l])
+                for l in range(k):
+                    matrix[l, j] = BP(matrix[l, j]) - q * BP(matrix[l, 0])
+            return invariant_factors(matrix)
+
     return [a0] + invariant_factors(matrix[1:, 1:])
-- 
2.43.0


From 5f7933f3bae1aff75da9973be037b124677b083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 23/48] fix: free distance counts code sequences that end
 outside the zero state

---
 src/komm/_error_control_convolutional/base.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/komm/_error_control_convolutional/base.py b/src/komm/_error_control_convolutional/base.py
index 9ecfff9..b3efc43 100644
--- a/src/komm/_error_control_convolutional/base.py
+++ b/src/komm/_error_control_convolutional/base.py
@@ -183,11 +183,23 @@ class ConvolutionalCode(ABC):
         Returns the *free distance* $d_\mathrm{free}$ of the code. This is equal to the minimum Hamming weight among all possible non-zero output sequences.
         """
         fsm = self.finite_state_machine()
+        # States from which the output can remain zero forever
+        quiet, size = set(range(fsm.num_states)), -1
+        while len(quiet) != size:
+            size = len(quiet)
+            quiet = {
+                s
+                for s in quiet
+                if any(
+                    fsm.outputs[s][x] == 0 and fsm.transitions[s][x] in quiet
+                    for x in range(fsm.num_input_symbols)
+                )
+            }
         heap = [(0, 0)]  # (weight, state)
         best = [np.inf] * fsm.num_states
         while heap:
             w, s = heappop(heap)
-            if s == 0 and w > 0:
+            if s in quiet and w > 0:
                 return int(w)
             for x in range(fsm.num_input_symbols):
                 s1 = fsm.transitions[s][x]
@@ -195,8 +207,8 @@ class ConvolutionalCode(ABC):
                 if w1 < best[s1]:
                     best[s1] = w1
                     heappush(heap, (w1, s1))
-                elif s1 == 0 and w1 > 0:
-                    heappush(heap, (w1, 0))
+                elif s1 in quiet and w1 > 0:
+                    heappush(heap, (w1, s1))
         raise RuntimeError
 
     @abstractmethod
-- 
2.43.0


From 5c7cf4b745da532f8814658c25919008252ac7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 24/48] fix: Viterbi and BCJR decoders use the tail that zero
 termination appends

---
 .../TerminatedConvolutionalCode.py            | 35 ++++++++++++++++---
 .../_error_control_decoders/BCJRDecoder.py    | 27 ++++++++++++--
 .../_error_control_decoders/ViterbiDecoder.py |  8 ++++-
 3 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index b544a5e..1fb6dbb 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -8,6 +8,7 @@ import numpy.typing as npt
 from numpy.linalg import matrix_power
 
 from .. import abc
+from .._util.bit_operations import bits_to_int, int_to_bits
 from .._util.decorators import blockwise, vectorize
 from .._util.matrices import null_matrix, pseudo_inverse
 from ..types import Array1D, Array2D
@@ -187,6 +188,12 @@ class TerminationStrategy(ABC):
     @abstractmethod
     def codeword_length(self) -> int: ...
 
+    def tail_outputs(self) -> npt.NDArray[np.integer]:
+        # Output symbols of the tail appended by the encoder, for each state in which
+        # the information blocks may end. Shape: (num_states, tail_length).
+        σ = self.convolutional_code.degree
+        return np.empty((2**σ, 0), dtype=int)
+
     @abstractmethod
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
@@ -253,6 +260,25 @@ class ZeroTermination(TerminationStrategy):
         M_tail = np.vstack([B_mat @ A_pow[j] % 2 for j in range(μ - 1, -1, -1)])
         return M_info @ pseudo_inverse(M_tail) % 2
 
+    def tail_outputs(self) -> npt.NDArray[np.integer]:
+        n = self.convolutional_code.num_output_bits
+        μ = self.convolutional_code.memory_order
+        σ = self.convolutional_code.degree
+        A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
+        outputs = np.empty((2**σ, μ), dtype=int)
+        if μ == 0:
+            return outputs
+        A_pow = [np.eye(σ, dtype=int)]
+        for _ in range(μ):
+            A_pow.append((A_pow[-1] @ A_mat) % 2)
+        M_tail = np.vstack([B_mat @ A_pow[j] % 2 for j in range(μ - 1, -1, -1)])
+        states = int_to_bits(range(2**σ), width=σ)
+        tails = states @ A_pow[μ] @ pseudo_inverse(M_tail) % 2
+        for s, (state, tail) in enumerate(zip(states, tails)):
+            v, _ = self.convolutional_code.encode_with_state(tail, state)
+            outputs[s] = bits_to_int(v.reshape(μ, n))
+        return outputs
+
     def pre_process_input(self, input: npt.ArrayLike) -> npt.NDArray[np.integer]:
         input = np.asarray(input)
         tail = input @ self._tail_projector % 2
@@ -271,22 +297,21 @@ class ZeroTermination(TerminationStrategy):
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.integer]:
-        μ = self.convolutional_code.memory_order
-        x_hat = xs_hat[: len(xs_hat) - μ, 0]
+        s_hat = np.argmin(final_metrics)
+        x_hat = xs_hat[:, s_hat]
         return x_hat
 
     def bcjr_initial_final_distributions(
         self, num_states: int
     ) -> tuple[npt.NDArray[np.floating], npt.NDArray[np.floating]]:
         initial_distribution = np.eye(1, num_states, 0)
-        final_distribution = np.eye(1, num_states, 0)
+        final_distribution = np.ones(num_states) / num_states
         return initial_distribution, final_distribution
 
     def bcjr_post_process_output(
         self, posteriors: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.floating]:
-        μ = self.convolutional_code.memory_order
-        return posteriors[: len(posteriors) - μ]
+        return posteriors
 
 
 class TailBiting(TerminationStrategy):
diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index b471ec8..cb827c3 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -8,6 +8,7 @@ from .. import abc
 from .._error_control_convolutional.TerminatedConvolutionalCode import (
     TerminatedConvolutionalCode,
 )
+from .._finite_state_machine.MealyMachine import MealyMachine
 from .._labelings.Labeling import Labeling
 from .._util.bit_operations import int_to_bits
 from .._util.decorators import blockwise, vectorize, with_pbar
@@ -45,6 +46,13 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         self._initial_state_distribution, self._final_state_distribution = (
             self.code.strategy.bcjr_initial_final_distributions(num_states)
         )
+        # The edges of this machine are told apart, so that the tail that follows the
+        # last information block can be accounted for in the metric of its edges.
+        self._edge_fsm = MealyMachine(
+            self._fsm.transitions,
+            np.arange(self._fsm.outputs.size).reshape(self._fsm.outputs.shape),
+        )
+        self._tail_outputs = self.code.strategy.tail_outputs()
         self._post_process_output = self.code.strategy.bcjr_post_process_output
         self._cache_polar = (-1) ** int_to_bits(range(2**n), width=n)
         self._labeling = Labeling(int_to_bits(range(2**k), width=k))
@@ -69,15 +77,28 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
             >>> decoder.decode([-0.8, -0.1, -1.0, +0.5, +1.8, -1.1, -1.6, +1.6])
             array([1, 1, 0])
         """
+        h = self.code.num_blocks
         n = self.code.convolutional_code.num_output_bits
 
         @blockwise(self.code.length)
         @vectorize
         @with_pbar(get_pbar(np.size(input) // self.code.length, "BCJR"))
         def decode(li: npt.NDArray[np.floating]) -> npt.NDArray[np.floating]:
-            symbol_posteriors = self._fsm.forward_backward(
-                observed=li.reshape(-1, n),
-                metric_function=self._metric_function,
+            observed = li.reshape(-1, n)
+            tail_metrics = [
+                sum(self._metric_function(y, z) for y, z in zip(ys, observed[h:]))
+                for ys in self._tail_outputs
+            ]
+
+            def metric_function(edge: int, t: int) -> float:
+                metric = self._metric_function(self._fsm.outputs.flat[edge], observed[t])
+                if t == h - 1:
+                    metric += tail_metrics[self._fsm.transitions.flat[edge]]
+                return metric
+
+            symbol_posteriors = self._edge_fsm.forward_backward(
+                observed=range(h),
+                metric_function=metric_function,
                 initial_state_distribution=self._initial_state_distribution,
                 final_state_distribution=self._final_state_distribution,
             )
diff --git a/src/komm/_error_control_decoders/ViterbiDecoder.py b/src/komm/_error_control_decoders/ViterbiDecoder.py
index 3762147..bc42307 100644
--- a/src/komm/_error_control_decoders/ViterbiDecoder.py
+++ b/src/komm/_error_control_decoders/ViterbiDecoder.py
@@ -42,6 +42,7 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         else:
             raise ValueError("input_type must be 'hard' or 'soft'")
         self._fsm = self.code.convolutional_code.finite_state_machine()
+        self._tail_outputs = self.code.strategy.tail_outputs()
         self._post_process_output = self.code.strategy.viterbi_post_process_output
         n = self.code.convolutional_code.num_output_bits
         self._cache_bit = int_to_bits(range(2**n), width=n)
@@ -71,6 +72,7 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
             >>> decoder.decode([-0.7, -0.5, -0.8, -0.6, -1.1, +0.4, +0.9, +0.8])
             array([1, 0, 0, 0])
         """
+        h = self.code.num_blocks
         k = self.code.convolutional_code.num_input_bits
         n = self.code.convolutional_code.num_output_bits
 
@@ -78,11 +80,15 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         @vectorize
         @with_pbar(get_pbar(np.size(input) // self.code.length, "Viterbi"))
         def decode(r: npt.NDArray[np.integer]):
+            observed = r.reshape(-1, n)
             xs_hat, final_metrics = self._fsm.viterbi(
-                observed=r.reshape(-1, n),
+                observed=observed[:h],
                 metric_function=self._metric_function,
                 initial_metrics=self._initial_metrics,
             )
+            for s, ys in enumerate(self._tail_outputs):
+                for y, z in zip(ys, observed[h:]):
+                    final_metrics[s] += self._metric_function(y, z)
             x_hat = self._post_process_output(xs_hat, final_metrics)
             u_hat = int_to_bits(x_hat, width=k).ravel()
             return u_hat
-- 
2.43.0


From 7dd3aa3844b93d434f00288bc5aac7dad3841a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 25/48] fix: bits_to_int and int_to_bits at widths of 64 bits
 and more, and empty arrays

---
 src/komm/_util/bit_operations.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/komm/_util/bit_operations.py b/src/komm/_util/bit_operations.py
index 06b78f3..328c970 100644
--- a/src/komm/_util/bit_operations.py
+++ b/src/komm/_util/bit_operations.py
@@ -1,5 +1,4 @@
-from functools import partial
-from typing import Literal, cast
+from typing import Literal, SupportsInt, cast
 
 import numpy as np
 import numpy.typing as npt
@@ -42,7 +41,13 @@ def bits_to_int(
             raise ValueError("'bit_order' must be in {'LSB-first', 'MSB-first'}")
         packed = np.packbits(input, bitorder="little")
         return int.from_bytes(packed, byteorder="little")
-    return np.apply_along_axis(partial(bits_to_int, bit_order=bit_order), -1, input)
+    input = np.asarray(input)
+    shape, width = input.shape[:-1], input.shape[-1]
+    rows = input.reshape(np.prod(shape, dtype=int), width)
+    return np.array(
+        [bits_to_int(row, bit_order=bit_order) for row in rows],
+        dtype=int if width < 64 else object,  # Integers may not fit in 64 bits.
+    ).reshape(shape)
 
 
 def int_to_bits(
@@ -83,7 +88,7 @@ def int_to_bits(
                [0, 0, 1, 1]])
     """
     if np.ndim(input) == 0:
-        input = cast(int, input)
+        input = int(cast(SupportsInt, input))
         if bit_order == "LSB-first":
             bit_list = [(input >> i) % 2 for i in range(width)]
         elif bit_order == "MSB-first":
-- 
2.43.0


From 2f742472e347725914d27f4f87cb184d3420b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 26/48] fix: extended gcd of high-degree polynomials exceeded
 the recursion limit

---
 src/komm/_algebra/domain.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/komm/_algebra/domain.py b/src/komm/_algebra/domain.py
index d610dab..4186ef2 100644
--- a/src/komm/_algebra/domain.py
+++ b/src/komm/_algebra/domain.py
@@ -49,11 +49,14 @@ def xgcd(x: T, y: T) -> tuple[T, T, T]:
     """
     zero: T = x.ambient.zero
     one: T = x.ambient.one
-    if x == zero:
-        return y, zero, one
-    else:
-        d, s, t = xgcd(y % x, x)
-        return d, t - s * (y // x), s
+    s0, t0 = zero, one
+    s1, t1 = one, zero
+    while x != zero:
+        q = y // x
+        x, y = y % x, x
+        s0, s1 = s1, s0 - q * s1
+        t0, t1 = t1, t0 - q * t1
+    return y, s0, t0
 
 
 def lcm(x: T, y: T) -> T:
-- 
2.43.0


From dd05776dd8a552295d6df31f51eb98773b64faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 27/48] fix: lcm of zero polynomials raised ZeroDivisionError

---
 src/komm/_algebra/BinaryPolynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index fdcb3af..d781dd4 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -304,7 +304,10 @@ class BinaryPolynomial:
         r"""
         Computes the least common multiple (lcm) of the arguments.
         """
-        return reduce(operator.mul, poly_list) // cls.gcd(*poly_list)
+        product = reduce(operator.mul, poly_list)
+        if product.value == 0:
+            return product
+        return product // cls.gcd(*poly_list)
 
 
 class BinaryPolynomials:
-- 
2.43.0


From 45983ac0b4a122c472ebddda94e70652ceaf40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 28/48] fix: mean and minimum distance of constellations with
 single-symbol components

---
 src/komm/_constellations/APSKConstellation.py | 2 +-
 src/komm/_constellations/PSKConstellation.py  | 2 +-
 src/komm/_constellations/QAMConstellation.py  | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/komm/_constellations/APSKConstellation.py b/src/komm/_constellations/APSKConstellation.py
index c584d17..70ea35d 100644
--- a/src/komm/_constellations/APSKConstellation.py
+++ b/src/komm/_constellations/APSKConstellation.py
@@ -131,7 +131,7 @@ class APSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and all(M > 1 for M in self._orders):
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
diff --git a/src/komm/_constellations/PSKConstellation.py b/src/komm/_constellations/PSKConstellation.py
index f62b50b..bb0a884 100644
--- a/src/komm/_constellations/PSKConstellation.py
+++ b/src/komm/_constellations/PSKConstellation.py
@@ -106,7 +106,7 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and self._order > 1:
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
diff --git a/src/komm/_constellations/QAMConstellation.py b/src/komm/_constellations/QAMConstellation.py
index 53e686f..2182b7b 100644
--- a/src/komm/_constellations/QAMConstellation.py
+++ b/src/komm/_constellations/QAMConstellation.py
@@ -175,7 +175,9 @@ class QAMConstellation(abc.Constellation[np.complexfloating]):
             >>> const.minimum_distance()
             2.0
         """
-        return min(self._deltas)
+        # A component with a single symbol contributes no distance.
+        deltas = [δ for M, δ in zip(self._orders, self._deltas) if M > 1]
+        return min(deltas or self._deltas)
 
     def indices_to_symbols(
         self, indices: npt.ArrayLike
-- 
2.43.0


From 5e8014ddd44b7ca04b4a17ed92f2832293644404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 29/48] fix: Labeling accepted matrices with elements other
 than 0 and 1

---
 src/komm/_labelings/Labeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_labelings/Labeling.py b/src/komm/_labelings/Labeling.py
index 6ec3957..32840e7 100644
--- a/src/komm/_labelings/Labeling.py
+++ b/src/komm/_labelings/Labeling.py
@@ -19,7 +19,7 @@ class Labeling(abc.Labeling):
         M, m = matrix.shape
         if M != 2**m:
             raise ValueError(f"shape of 'matrix' must be (2**m, m) (got ({M}, {m}))")
-        if np.any(matrix < 0) or np.any(matrix > 1):
+        if not np.all(np.isin(matrix, [0, 1])):
             raise ValueError("elements of 'matrix' must be either 0 or 1")
         if len(set(tuple(row) for row in matrix)) != M:
             raise ValueError("rows of 'matrix' must be distinct")
-- 
2.43.0


From be55c3914ab6684c1cef4a2359f316a0dce8712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 30/48] fix: PAM and ASK decided on the wrong end symbol for
 very large inputs

---
 src/komm/_constellations/ASKConstellation.py | 3 +--
 src/komm/_constellations/PAMConstellation.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/komm/_constellations/ASKConstellation.py b/src/komm/_constellations/ASKConstellation.py
index 8c6ca1d..36e1baa 100644
--- a/src/komm/_constellations/ASKConstellation.py
+++ b/src/komm/_constellations/ASKConstellation.py
@@ -166,8 +166,7 @@ class ASKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._base_amplitude, self._phase_offset
         normalized = np.real(np.multiply(received, np.exp(-2j * np.pi * φ))) / A
-        indices = np.round(normalized).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        indices = np.clip(np.round(normalized), 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(
diff --git a/src/komm/_constellations/PAMConstellation.py b/src/komm/_constellations/PAMConstellation.py
index 84d6389..ec167e8 100644
--- a/src/komm/_constellations/PAMConstellation.py
+++ b/src/komm/_constellations/PAMConstellation.py
@@ -152,8 +152,7 @@ class PAMConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         normalized = np.asarray(received, dtype=float) / self._delta
-        indices = np.round(normalized + (M - 1) / 2).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        indices = np.clip(np.round(normalized + (M - 1) / 2), 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(self, received: npt.ArrayLike) -> npt.NDArray[np.floating]:
-- 
2.43.0


From d19fc445a1c045325e901a1637d04ab59bf83222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 31/48] fix: mean squared error of quantizers with thresholds
 outside the input range

---
 src/komm/_quantization/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_quantization/base.py b/src/komm/_quantization/base.py
index 52f18c9..52c8100 100644
--- a/src/komm/_quantization/base.py
+++ b/src/komm/_quantization/base.py
@@ -75,7 +75,8 @@ class ScalarQuantizer(ABC):
         """
         # See [Say06, eq. (9.3)].
         x_min, x_max = input_range
-        λ = np.concatenate(([x_min], self.thresholds, [x_max]))
+        thresholds = np.clip(self.thresholds, x_min, x_max)
+        λ = np.concatenate(([x_min], thresholds, [x_max]))
         mse = 0.0
         for i, level in enumerate(self.levels):
             x = np.linspace(λ[i], λ[i + 1], num=points_per_interval, dtype=float)
-- 
2.43.0


From 413944258f5773ae21b8f61a2f16a4c66c9ab3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 32/48] fix: autocorrelations of short integer types wrapped or
 failed

---
 src/komm/_util/sequences.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/sequences.py b/src/komm/_util/sequences.py
index ade6037..d742da3 100644
--- a/src/komm/_util/sequences.py
+++ b/src/komm/_util/sequences.py
@@ -35,8 +35,10 @@ def autocorrelation(
         array([11., 20., 30., 20., 11.])
     """
     sequence = np.asarray(sequence)
+    if sequence.dtype.kind in "biu":
+        sequence = sequence.astype(int)
     seq_conj = np.conj(sequence)
-    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
+    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts, int)
     acorr = np.empty_like(shifts, dtype=sequence.dtype)
     for i, ℓ in enumerate(shifts):
         if ℓ < 0:
@@ -76,7 +78,9 @@ def cyclic_autocorrelation(
         array([22., 24., 30., 24., 22.])
     """
     sequence = np.asarray(sequence)
-    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
+    if sequence.dtype.kind in "biu":
+        sequence = sequence.astype(int)
+    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts, int)
     acorr = np.array([np.dot(sequence, np.roll(sequence, ℓ).conj()) for ℓ in shifts])
     energy = np.dot(sequence, sequence.conj())
     return acorr / energy if normalized else acorr
-- 
2.43.0


From 547dd96b45100de5fa72532457e33f0410abe561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 33/48] fix: absorbing chain quantities list the states in
 increasing order

---
 src/komm/_sources/MarkovChain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index 9774aac..b08bf4b 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -479,7 +479,7 @@ class MarkovChain:
         """
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
-        transient = list(self.transient_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         Q = P[np.ix_(transient, transient)]
         I = np.eye(len(transient))
@@ -535,8 +535,8 @@ class MarkovChain:
                    [0.33333333, 0.66666667]])
         """
         N = self.mean_number_of_visits()
-        absorbing = list(self.absorbing_states())
-        transient = list(self.transient_states())
+        absorbing = sorted(self.absorbing_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         R = P[np.ix_(transient, absorbing)]
         B = N @ R
-- 
2.43.0


From 4ca5b7a51fa72ed5f1e735c6c3198feca6b83b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 34/48] fix: discrete channels accept boolean input symbols

---
 src/komm/_channels/BinaryErasureChannel.py      | 2 +-
 src/komm/_channels/BinarySymmetricChannel.py    | 2 +-
 src/komm/_channels/DiscreteMemorylessChannel.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 4627fe5..74c7251 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -111,7 +111,7 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
             array([1, 1, 1, 0, 2, 0, 1, 0, 2, 0])
         """
         epsilon = self.erasure_probability
-        input = np.asarray(input)
+        input = np.asarray(input, dtype=int)
         erasure_pattern = self.rng.random(input.shape) < epsilon
         output = np.copy(input)
         output[erasure_pattern] = 2
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 7ebb38a..3f1360e 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -112,6 +112,6 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
             array([1, 1, 1, 0, 1, 0, 1, 0, 0, 0])
         """
         p = self.crossover_probability
-        input = np.array(input)
+        input = np.array(input, dtype=int)
         error_pattern = self.rng.random(input.shape) < p
         return (input + error_pattern) % 2
diff --git a/src/komm/_channels/DiscreteMemorylessChannel.py b/src/komm/_channels/DiscreteMemorylessChannel.py
index 8342b92..7a7645f 100644
--- a/src/komm/_channels/DiscreteMemorylessChannel.py
+++ b/src/komm/_channels/DiscreteMemorylessChannel.py
@@ -105,7 +105,7 @@ class DiscreteMemorylessChannel(abc.DiscreteMemorylessChannel):
             >>> dmc.transmit([1, 1, 1, 0, 0, 0, 1, 0, 1, 0])
             array([2, 1, 2, 0, 0, 2, 2, 0, 1, 0])
         """
-        input = np.asarray(input)
+        input = np.asarray(input, dtype=int)
         output = np.empty_like(input, dtype=int)
         for index, symbol in np.ndenumerate(input):
             output[index] = self.rng.choice(
-- 
2.43.0


From 957689dcf684433f78bae355b1c8c7f90477741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 35/48] fix: sampling from accepted pmfs whose sum is only
 approximately one

---
 src/komm/_channels/DiscreteMemorylessChannel.py | 5 ++---
 src/komm/_sources/DiscreteMemorylessSource.py   | 3 ++-
 src/komm/_sources/MarkovChain.py                | 2 ++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/komm/_channels/DiscreteMemorylessChannel.py b/src/komm/_channels/DiscreteMemorylessChannel.py
index 7a7645f..04c31c6 100644
--- a/src/komm/_channels/DiscreteMemorylessChannel.py
+++ b/src/komm/_channels/DiscreteMemorylessChannel.py
@@ -108,7 +108,6 @@ class DiscreteMemorylessChannel(abc.DiscreteMemorylessChannel):
         input = np.asarray(input, dtype=int)
         output = np.empty_like(input, dtype=int)
         for index, symbol in np.ndenumerate(input):
-            output[index] = self.rng.choice(
-                a=self.output_cardinality, p=self.transition_matrix[symbol]
-            )
+            p = self.transition_matrix[symbol]
+            output[index] = self.rng.choice(a=self.output_cardinality, p=p / p.sum())
         return output
diff --git a/src/komm/_sources/DiscreteMemorylessSource.py b/src/komm/_sources/DiscreteMemorylessSource.py
index 1992a4a..cb35557 100644
--- a/src/komm/_sources/DiscreteMemorylessSource.py
+++ b/src/komm/_sources/DiscreteMemorylessSource.py
@@ -120,4 +120,5 @@ class DiscreteMemorylessSource:
             shape = (1,)
         elif isinstance(shape, int):
             shape = (shape,)
-        return self._rng.choice(self.pmf.size, p=self.pmf, size=shape)
+        p = self.pmf / self.pmf.sum()
+        return self._rng.choice(self.pmf.size, p=p, size=shape)
diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index b08bf4b..c36bb8d 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -654,6 +654,7 @@ class MarkovChain:
             array([2, 0, 1, 2, 0, 1, 2, 0, 1, 2])
         """
         P = self.transition_matrix
+        P = P / P.sum(axis=1, keepdims=True)
         state = initial_state
         output = np.empty(steps, dtype=int)
         for t in range(steps):
@@ -687,6 +688,7 @@ class MarkovChain:
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
         P = self.transition_matrix
+        P = P / P.sum(axis=1, keepdims=True)
         state = initial_state
         output = [state]
         transient = self._transient_states()
-- 
2.43.0


From 55853f33dc26049848d52546ebf0f3c5653bcdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 36/48] fix: transition matrix of binary channels follows the
 channel parameter

---
 src/komm/_channels/BinaryErasureChannel.py   | 2 +-
 src/komm/_channels/BinarySymmetricChannel.py | 2 +-
 src/komm/_channels/ZChannel.py               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 74c7251..e0a3334 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -41,7 +41,7 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
         """
         return 3
 
-    @cached_property
+    @property
     def transition_matrix(self) -> npt.NDArray[np.floating]:
         r"""
         For the BEC, it is given by
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 3f1360e..171b0ad 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -45,7 +45,7 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
         """
         return 2
 
-    @cached_property
+    @property
     def transition_matrix(self) -> npt.NDArray[np.floating]:
         r"""
         For the BSC, it is given by
diff --git a/src/komm/_channels/ZChannel.py b/src/komm/_channels/ZChannel.py
index b243619..03d9c7f 100644
--- a/src/komm/_channels/ZChannel.py
+++ b/src/komm/_channels/ZChannel.py
@@ -45,7 +45,7 @@ class ZChannel(abc.DiscreteMemorylessChannel):
         """
         return 2
 
-    @cached_property
+    @property
     def transition_matrix(self) -> npt.NDArray[np.floating]:
         r"""
         For the Z-channel, it is given by
-- 
2.43.0


From 185e00671fd33cd6496fcd97f3671d1837d5b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 37/48] fix: entropy and relative entropy overflowed for very
 small probabilities

---
 src/komm/_util/information_theory.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/komm/_util/information_theory.py b/src/komm/_util/information_theory.py
index d185a7d..3da5bbe 100644
--- a/src/komm/_util/information_theory.py
+++ b/src/komm/_util/information_theory.py
@@ -42,13 +42,14 @@ def entropy(pmf: npt.ArrayLike, base: float | Literal["e"] = 2.0) -> float:
     pmf = validate_pmf(pmf)
     validate_log_base(base)
     pmf = pmf[pmf > 0]
-    # We compute log(1/p) rather than -log(p) to avoid -0.0.
+    # We compute 0.0 - log(p) rather than -log(p) to avoid -0.0, and rather than
+    # log(1/p) because 1/p overflows for very small p.
     if base == "e":
-        log_recip_pmf = np.log(1 / pmf)
+        log_recip_pmf = 0.0 - np.log(pmf)
     elif base == 2.0:
-        log_recip_pmf = np.log2(1 / pmf)
+        log_recip_pmf = 0.0 - np.log2(pmf)
     else:
-        log_recip_pmf = np.log(1 / pmf) / np.log(base)
+        log_recip_pmf = (0.0 - np.log(pmf)) / np.log(base)
     return float(np.dot(pmf, log_recip_pmf))
 
 
@@ -149,11 +150,11 @@ def relative_entropy(
     pmf, qmf = pmf[mask], qmf[mask]
     with np.errstate(divide="ignore"):
         if base == "e":
-            log_quotient = np.log(pmf / qmf)
+            log_quotient = np.log(pmf) - np.log(qmf)
         elif base == 2.0:
-            log_quotient = np.log2(pmf / qmf)
+            log_quotient = np.log2(pmf) - np.log2(qmf)
         else:
-            log_quotient = np.log(pmf / qmf) / np.log(base)
+            log_quotient = (np.log(pmf) - np.log(qmf)) / np.log(base)
     return float(np.dot(pmf, log_quotient))
 
 
-- 
2.43.0


From d51c6bdb610ed275f07034607fe46038e5273613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 38/48] fix: mutual information of binary channels refused pmfs
 accepted as summing to one

---
 src/komm/_channels/BinaryErasureChannel.py   | 2 +-
 src/komm/_channels/BinarySymmetricChannel.py | 2 +-
 src/komm/_channels/ZChannel.py               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index e0a3334..ceb9d7f 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -83,7 +83,7 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
         base = validate_log_base(base)
         base = e if base == "e" else base
         epsilon = self.erasure_probability
-        pi = input_pmf[1]
+        pi = input_pmf[1] / input_pmf.sum()
         return (1.0 - epsilon) * binary_entropy(pi) / log2(base)
 
     def capacity(self, base: float | Literal["e"] = 2.0) -> float:
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 171b0ad..a81f6a1 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -83,7 +83,7 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.crossover_probability
-        pi = input_pmf[1]
+        pi = input_pmf[1] / input_pmf.sum()
         return (binary_entropy(p + pi - 2 * p * pi) - binary_entropy(p)) / log2(base)
 
     def capacity(self, base: float | Literal["e"] = 2.0) -> float:
diff --git a/src/komm/_channels/ZChannel.py b/src/komm/_channels/ZChannel.py
index 03d9c7f..3fa43e1 100644
--- a/src/komm/_channels/ZChannel.py
+++ b/src/komm/_channels/ZChannel.py
@@ -83,7 +83,7 @@ class ZChannel(abc.DiscreteMemorylessChannel):
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.decay_probability
-        pi = float(input_pmf[1])
+        pi = float(input_pmf[1] / input_pmf.sum())
         return (binary_entropy(pi * (1 - p)) - pi * binary_entropy(p)) / log2(base)
 
     def capacity(self, base: float | Literal["e"] = 2.0) -> float:
-- 
2.43.0


From 5be0ac25afbb24c2b2d2489e43e16c8bc887dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 39/48] fix: finite-state machines accept boolean input
 sequences

---
 src/komm/_finite_state_machine/MealyMachine.py | 3 ++-
 src/komm/_finite_state_machine/MooreMachine.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index 4bfe54d..9bd844a 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -179,7 +179,8 @@ class MealyMachine:
             >>> final_state
             2
         """
-        output = np.empty_like(input, dtype=int)
+        input = np.asarray(input).astype(int)  # booleans would act as masks
+        output = np.empty_like(input)
         s = initial_state
         for t, x in np.ndenumerate(input):
             y = self.outputs[s, x]
diff --git a/src/komm/_finite_state_machine/MooreMachine.py b/src/komm/_finite_state_machine/MooreMachine.py
index 3a732ad..6be6d1a 100644
--- a/src/komm/_finite_state_machine/MooreMachine.py
+++ b/src/komm/_finite_state_machine/MooreMachine.py
@@ -141,7 +141,8 @@ class MooreMachine:
             >>> final_state
             2
         """
-        output = np.empty_like(input, dtype=int)
+        input = np.asarray(input).astype(int)  # booleans would act as masks
+        output = np.empty_like(input)
         s = initial_state
         for t, x in np.ndenumerate(input):
             s = self.transitions[s, x]
-- 
2.43.0


From 7b549fcecbbd24d88a1471005890bd94e99f1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 40/48] fix: syndrome table decoder accepts words of any
 integer type

---
 src/komm/_error_control_decoders/SyndromeTableDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/SyndromeTableDecoder.py b/src/komm/_error_control_decoders/SyndromeTableDecoder.py
index 1b5b9ad..aa62de6 100644
--- a/src/komm/_error_control_decoders/SyndromeTableDecoder.py
+++ b/src/komm/_error_control_decoders/SyndromeTableDecoder.py
@@ -40,7 +40,7 @@ class SyndromeTableDecoder(abc.BlockDecoder[abc.BlockCode]):
         def decode(r: npt.NDArray[np.integer]):
             s = self.code.check(r)
             e_hat = self._coset_leaders[bits_to_int(s)]
-            v_hat = np.bitwise_xor(r, e_hat)
+            v_hat = np.bitwise_xor(r.astype(int), e_hat)
             u_hat = self.code.project_word(v_hat)
             return u_hat
 
-- 
2.43.0


From 143a3c25e5273109826406ccfcb5da545c5c9c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:08 +0000
Subject: [PATCH 41/48] fix: marcum_q truncated its series for x of about 9 and
 more

---
 src/komm/_util/special_functions.py | 40 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 45f0401..bac17b6 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -1,4 +1,4 @@
-from math import erfc, gamma, sqrt
+from math import erfc, gamma, lgamma, sqrt
 from statistics import NormalDist
 
 import numpy as np
@@ -7,6 +7,7 @@ import numpy.typing as npt
 norm = NormalDist()
 
 gamma = np.vectorize(gamma)
+lgamma = np.vectorize(lgamma)
 
 
 def _gaussian_q(x: float) -> float:
@@ -74,21 +75,30 @@ def gaussian_q_inv(y: npt.ArrayLike) -> npt.NDArray[np.floating] | float:
     return float(result) if np.ndim(result) == 0 else result
 
 
-def _auxiliary_p(
-    m: int, a: float, b: float, max_iter: int = 100, tol: float = 1e-16
-) -> float:
-    # Auxiliary function for the Marcum Q-function
+def _poisson(mean: float) -> tuple[int, npt.NDArray[np.floating]]:
+    # First index and values of the non-negligible part of the Poisson pmf.
+    width = 40 * np.sqrt(mean) + 100
+    start, stop = max(0, int(mean - width)), int(mean + width) + 1
+    ks = np.arange(start, stop)
+    if stop <= 170:
+        return start, np.exp(-mean) * (mean**ks) / gamma(ks + 1)
+    pmf = np.exp(ks * np.log(mean) - mean - lgamma(ks + 1))
+    return start, pmf / np.sum(pmf)
+
+
+def _auxiliary_p(m: int, a: float, b: float) -> float:
+    # Auxiliary function for the Marcum Q-function: Probability that J < m + K, where
+    # J and K are independent Poisson variables with means b and m * a.
     # See [https://en.wikipedia.org/wiki/Marcum_Q-function].
-    ms = np.arange(m)
-    result = np.sum(np.exp(-b) * (b**ms) / gamma(ms + 1))
-    for i in range(m, max_iter):
-        ks = np.arange(i - m + 1)
-        inner_sum = np.sum(np.exp(-m * a) * ((m * a) ** ks) / gamma(ks + 1))
-        term = np.exp(-b) * (b**i) / gamma(i + 1) * (1 - inner_sum)
-        result += term
-        if abs(term) < tol:
-            break
-    return result
+    if np.isinf(a) or np.isinf(b):
+        return np.nan if np.isinf(a) and np.isinf(b) else float(np.isinf(a))
+    start_j, pmf_j = _poisson(b)
+    start_k, pmf_k = _poisson(m * a)
+    survival_k = np.concatenate((np.cumsum(pmf_k[::-1])[::-1], [0.0]))
+    js = start_j + np.arange(pmf_j.size)
+    # Probability that K > j - m, for each j:
+    probs = survival_k[np.clip(js - m + 1 - start_k, 0, pmf_k.size)]
+    return float(min(np.cumsum(pmf_j * probs)[-1], 1.0))
 
 
 def marcum_q(
-- 
2.43.0


From 819f67b432b5e304d535d101f5edc42a2f5f06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:15 +0000
Subject: [PATCH 42/48] fix: boxplus returned nan for two infinite L-values

---
 src/komm/_util/special_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index bac17b6..0c71f5f 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -170,7 +170,9 @@ def boxplus(a: npt.ArrayLike, b: npt.ArrayLike) -> npt.NDArray[np.floating] | fl
     if a.shape != b.shape:
         raise ValueError("inputs must have the same shape")
     s = np.sign(a) * np.sign(b) * np.minimum(np.abs(a), np.abs(b))
-    p1 = np.exp(-np.abs(a + b))
-    p2 = np.exp(-np.abs(a - b))
+    with np.errstate(invalid="ignore"):
+        p1 = np.exp(-np.abs(a + b))
+        p2 = np.exp(-np.abs(a - b))
     result = s + np.log1p(p1) - np.log1p(p2)
+    result = np.where(np.isinf(s), s, result)
     return float(result) if np.ndim(result) == 0 else result
-- 
2.43.0


From 54b0d738247737cbf19f38335ac6eae74e827a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:21 +0000
Subject: [PATCH 43/48] fix: boxplus and marcum_q overflowed for short integer
 types

---
 src/komm/_util/special_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 0c71f5f..f3a11c8 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -126,8 +126,8 @@ def marcum_q(
         >>> komm.marcum_q(2, 0.5, [1.2, 1.4, 1.6])
         array([0.85225816, 0.76472056, 0.66139663])
     """
-    a = np.asarray(a)
-    x = np.asarray(x)
+    a = np.asarray(a, dtype=float)
+    x = np.asarray(x, dtype=float)
     if not m > 0:
         raise ValueError("'m' must be positive")
     if not np.all(a >= 0) or not np.all(x >= 0):
@@ -165,8 +165,8 @@ def boxplus(a: npt.ArrayLike, b: npt.ArrayLike) -> npt.NDArray[np.floating] | fl
         >>> komm.boxplus([0, 1, 2], [1, -1, -1])
         array([ 0.        , -0.43378083, -0.73532566])
     """
-    a = np.asarray(a)
-    b = np.asarray(b)
+    a = np.asarray(a, dtype=float)
+    b = np.asarray(b, dtype=float)
     if a.shape != b.shape:
         raise ValueError("inputs must have the same shape")
     s = np.sign(a) * np.sign(b) * np.minimum(np.abs(a), np.abs(b))
-- 
2.43.0


From e315351c1fc10b3face25fa36853ba88ffcd50b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:09 +0000
Subject: [PATCH 44/48] fix: PSK symbols of tiny amplitude were rounded away

---
 src/komm/_constellations/PSKConstellation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/komm/_constellations/PSKConstellation.py b/src/komm/_constellations/PSKConstellation.py
index bb0a884..4b88883 100644
--- a/src/komm/_constellations/PSKConstellation.py
+++ b/src/komm/_constellations/PSKConstellation.py
@@ -68,9 +68,10 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._amplitude, self._phase_offset
         i = np.arange(M).reshape(-1, 1)
-        matrix = A * np.exp(2j * np.pi * i / M) * np.exp(2j * np.pi * φ)
-        # We round to avoid sin(pi) != 0, and add 0.0 to avoid -0.0.
-        return matrix.round(15) + 0.0
+        matrix = np.exp(2j * np.pi * i / M) * np.exp(2j * np.pi * φ)
+        # We round to avoid sin(pi) != 0, and add 0.0 to avoid -0.0. The rounding
+        # is absolute, so it must come before scaling by the amplitude.
+        return A * matrix.round(15) + 0.0
 
     @property
     def order(self) -> int:
-- 
2.43.0


From 148d3f4ca532bd2154ae0c1f66a0848ae1ec6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:09 +0000
Subject: [PATCH 45/48] fix: Lloyd-Max iteration stopped early for narrow input
 ranges

---
 src/komm/_quantization/LloydMaxQuantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_quantization/LloydMaxQuantizer.py b/src/komm/_quantization/LloydMaxQuantizer.py
index 064c839..481a460 100644
--- a/src/komm/_quantization/LloydMaxQuantizer.py
+++ b/src/komm/_quantization/LloydMaxQuantizer.py
@@ -162,7 +162,7 @@ def lloyd_max_quantizer(
             denominator = np.trapezoid(pdf, x)
             if denominator != 0:
                 y[i] = np.trapezoid(x * pdf, x) / denominator
-        if np.allclose(y, y_old):
+        if np.allclose(y, y_old, atol=1e-8 * (x_max - x_min)):
             break
 
     return y, λ[1:-1]
-- 
2.43.0


From 82745194b2b57ddad156b66217ac0027b41fabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:16 +0000
Subject: [PATCH 46/48] fix: Zadoff-Chu phases of long sequences lost their
 precision

---
 src/komm/_sequences_complex/sequences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_sequences_complex/sequences.py b/src/komm/_sequences_complex/sequences.py
index bbd03de..a527808 100644
--- a/src/komm/_sequences_complex/sequences.py
+++ b/src/komm/_sequences_complex/sequences.py
@@ -6,4 +6,6 @@ def zadoff_chu_sequence(
     length: int, root_index: int
 ) -> npt.NDArray[np.complexfloating]:
     n = np.arange(length)
-    return np.exp(-1j * np.pi * root_index * n * (n + 1) / length)
+    # Reduce modulo whole turns, so that the phase of long sequences is not lost.
+    half_turns = root_index * (n * (n + 1) % (2 * length)) % (2 * length)
+    return np.exp(-1j * np.pi * half_turns / length)
-- 
2.43.0


From 4e3d41570a2deb304b3e0c580e5055e3ff927ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:30 +0000
Subject: [PATCH 47/48] fix: biorthogonal decisions were wrong for unsigned
 integer inputs

---
 src/komm/_constellations/BiorthogonalConstellation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_constellations/BiorthogonalConstellation.py b/src/komm/_constellations/BiorthogonalConstellation.py
index d03bd2f..2c05205 100644
--- a/src/komm/_constellations/BiorthogonalConstellation.py
+++ b/src/komm/_constellations/BiorthogonalConstellation.py
@@ -166,7 +166,7 @@ class BiorthogonalConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         N = M // 2
-        received = np.asarray(received)
+        received = np.asarray(received, dtype=float)
         r = received.reshape(-1, N)
         scores = np.concatenate([r, -r], axis=-1)
         indices = np.argmax(scores, axis=-1)
-- 
2.43.0


From bf21f4695310aa0b3e4a0aa1d85dbf3500d1c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:27 +0000
Subject: [PATCH 48/48] fix: RectangularPulse refuses a width outside (0, 1]

The documentation requires 0 < w <= 1, but nothing checked it: a width of
zero divided by zero in the waveform and a larger one overlapped the next
symbol.
---
 src/komm/_pulses/RectangularPulse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_pulses/RectangularPulse.py b/src/komm/_pulses/RectangularPulse.py
index 3520e2f..072d6b5 100644
--- a/src/komm/_pulses/RectangularPulse.py
+++ b/src/komm/_pulses/RectangularPulse.py
@@ -42,6 +42,10 @@ class RectangularPulse(abc.Pulse):
 
     width: float = 1.0
 
+    def __post_init__(self) -> None:
+        if not 0 < self.width <= 1:
+            raise ValueError("'width' must satisfy 0 < width <= 1")
+
     def waveform(self, t: npt.ArrayLike) -> npt.NDArray[np.floating]:
         r"""
         For the rectangular pulse, it is given by
-- 
2.43.0

