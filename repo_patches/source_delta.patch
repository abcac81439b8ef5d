From 7ab0e6077f1b095533a8e74fe9363f2c6ffea8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 01/35] fix: Matrix.row checks the row index against the number
 of rows

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index e799623..18910fb 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -117,7 +117,7 @@ class Matrix:
         """
         Return a row of the matrix as a row vector.
         """
-        if not 0 <= row < self.ncols:
+        if not 0 <= row < self.nrows:
             raise IndexError(f"Row {row} is out of bounds for a {self.nrows} x {self.ncols} matrix.")
 
         return Matrix(1, self.ncols, tuple(self[row, j] for j in range(self.ncols)))
-- 
2.43.0


From c9406856b97cb8a06efeb6219e34eca72caa91a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 02/35] fix: Matrix.is_symmetric compares all pairs, not only
 the diagonal

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 18910fb..0e8c3d5 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -231,7 +231,7 @@ class Matrix:
         return self.nrows == self.ncols
 
     def is_symmetric(self):
-        return all(self[i, j] == self[j, i] for i, j in zip(range(self.nrows), range(self.ncols)))
+        return self.is_square() and all(self[i, j] == self[j, i] for i in range(self.nrows) for j in range(i))
 
     def __repr__(self):
         """
-- 
2.43.0


From 05e4404682181d8824814001035d606c8de6baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 03/35] fix: Matrix.__sub__ declines operands that are not
 matrices instead of returning None

---
 peyl/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 0e8c3d5..1cac3e4 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -215,6 +215,8 @@ class Matrix:
                 raise ValueError("Cannot subtract incompatibly sized matrices.")
             return Matrix(self.nrows, self.ncols, tuple(a - b for a, b in zip(self.data, other.data)))
 
+        return NotImplemented
+
     def trace(self):
         """
         The trace of a square matrix is the sum of the diagonal entries.
-- 
2.43.0


From 6d45952d2c0c25482a1f51b1aaf70c6a2dc4bf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 04/35] fix: SymmetricGroup.from_cycle wraps at the length of
 the cycle

---
 peyl/permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 39be001..9c73d1b 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -365,10 +365,10 @@ class SymmetricGroup:
     def from_cycle(self, cycle: Sequence[int]):
         """Create a permutation from a cycle."""
         assert all(0 <= x < self.n for x in cycle)
-        assert max(collections.Counter(cycle).values()) <= 1
+        assert len(set(cycle)) == len(cycle)
         word = list(range(self.n))
         for i in range(len(cycle)):
-            word[cycle[i]] = cycle[(i+1)%self.n]
+            word[cycle[i]] = cycle[(i+1)%len(cycle)]
 
         return Permutation(tuple(word))
 
-- 
2.43.0


From 43579e510ff2a5d3f248c1bc42a3018a88b8f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 05/35] fix: SymmetricGroup.from_cycles starts from the
 identity permutation

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 9c73d1b..4862039 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -375,7 +375,7 @@ class SymmetricGroup:
 
     def from_cycles(self, cycles: Sequence[Sequence[int]]):
         """Create a permutation from a list of cycles (not necessarily disjoint)."""
-        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id)
+        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id())
 
 
     def elements(self) -> Iterable[Permutation]:
-- 
2.43.0


From 4cd06e2c25ea6e44990b9be364b05db44f20fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 06/35] fix: validate permutations and symmetric groups on
 construction

---
 peyl/permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 4862039..b4e45fa 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -339,7 +339,7 @@ def is_parallel_descending_cycles(perm: Sequence[int]) -> bool:
 class SymmetricGroup:
     n: int
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert self.n >= 0
 
     @functools.cache
@@ -387,7 +387,7 @@ class SymmetricGroup:
 class Permutation:
     word: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert is_permutation(self.word)
 
     def group(self):
-- 
2.43.0


From 99f2f07492877ab6de0ea8b26ef82aca24cfef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 07/35] fix: Poly arithmetic declines operands that are neither
 ints nor Polys

---
 peyl/poly.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/peyl/poly.py b/peyl/poly.py
index 7346681..5e27ef1 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -77,10 +77,16 @@ class Poly:
         return f"Poly('{''.join(parts)}')"
 
     def __add__(self, other: int | Poly) -> Poly:
+        if not isinstance(other, (int, Poly)):
+            return NotImplemented
+
         coeffs = [other] if isinstance(other, int) else other.coeffs
         return Poly(*(c + d for c, d in itertools.zip_longest(self.coeffs, coeffs, fillvalue=0)))
 
     def __sub__(self, other: int | Poly) -> Poly:
+        if not isinstance(other, (int, Poly)):
+            return NotImplemented
+
         coeffs = [other] if isinstance(other, int) else other.coeffs
         return Poly(*(c - d for c, d in itertools.zip_longest(self.coeffs, coeffs, fillvalue=0)))
 
@@ -96,6 +102,8 @@ class Poly:
                 result[i+j] += c*d
             return Poly(*result)
 
+        return NotImplemented
+
     __radd__ = __add__
     __rmul__ = __mul__
 
-- 
2.43.0


From a06be709cf3eb6fed5f7f2072e31dc03ea095c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 08/35] fix: TLDiag products decline operands that are not
 TLDiags

---
 peyl/tl.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5981422..e0afaa2 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -193,13 +193,18 @@ class TLDiag:
             seq, bubbles = compose(upper.seq, lower.seq, upper.bot)
             return TLDiag(upper.top, lower.bot, seq), bubbles
 
+        return NotImplemented
+
     def __matmul__(self, other: TLDiag) -> TLDiag:
         """Horizontal composition of TL diagrams, returning a new TLDiag."""
-        return TLDiag(
-            self.top + other.top,
-            self.bot + other.bot,
-            insert(self.seq, other.seq, self.bot),
-        )
+        if isinstance(other, TLDiag):
+            return TLDiag(
+                self.top + other.top,
+                self.bot + other.bot,
+                insert(self.seq, other.seq, self.bot),
+            )
+
+        return NotImplemented
 
     def flip(self) -> TLDiag:
         """Vertical flip of the diagram."""
-- 
2.43.0


From de79e488448906d8947f69b1c5095fb727908d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 09/35] fix: BraidGroup.all_of_garside_length passes its power
 on

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4e5b6ba..d557ce7 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -782,7 +782,7 @@ class BraidGroup:
 
     def all_of_garside_length(self, length: int, power: int = 0) -> Iterable[GNF]:
         """Use GNF.all_of_length() or DGNF.all_of_length() instead."""
-        return GNF.all_of_length(n=self.n, length=length)
+        return GNF.all_of_length(n=self.n, length=length, power=power)
 
     def count_all_of_garside_length(self, length: int):
         """Use GNF.count_all_of_length() or DGNF.count_all_of_length() instead."""
-- 
2.43.0


From dcae1fc82fc9020e64f539af18eebde10722d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 10/35] fix: suffixes of a normal form carry no power of the
 Garside element

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index d557ce7..ee9236e 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -492,7 +492,7 @@ class NFBase(Generic[T]):
         """Return all x such that self * x has no cancellation, and x has the given length."""
         table = self._nf_table(self.n)
         return (
-            self.__class__(self.n, self.power, suffix)
+            self.__class__(self.n, 0, suffix)
             for suffix in table.normal_forms(length=length, following=self.factors[-1] if self.factors else None)
         )
 
-- 
2.43.0


From 6288001a7cbb21c9c2e3eecf83cae245dc0a0de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 11/35] fix: TLExtDiag products put the left factor on top

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index e0afaa2..fe2b634 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -311,7 +311,7 @@ class TLExtDiag:
             if self.bot != other.top:
                 raise ValueError("Trying to compose incompatible TLDiags.")
 
-            seq, bubbles = compose(other.seq, self.seq, self.bot)
+            seq, bubbles = compose(self.seq, other.seq, self.bot)
             return TLExtDiag(self.top, other.bot, seq, self.bubbles + other.bubbles + bubbles)
 
         return NotImplemented
-- 
2.43.0


From aee47604c45808b1983747f855181aa28354b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 12/35] fix: TLMor.flip honours twist_v

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index fe2b634..ccfe74f 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -455,7 +455,7 @@ class TLMor:
         """Apply the upside-down flip to the diagrams. If twist_v is True, also map v -> v^-1."""
         vinv = LPoly(-1, (1,))
         return TLMor(self.bot, self.top, {
-            diag.flip(): coeff.evaluate(vinv) for diag, coeff in self.terms.items()
+            diag.flip(): LPoly.coerce(coeff.evaluate(vinv)) if twist_v else coeff for diag, coeff in self.terms.items()
         })
 
     def __neg__(self):
-- 
2.43.0


From 99344bb4ca6261868263de65f3e6de98699e2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 13/35] fix: polymat.from_matrix converts matrices mixing ints
 and Laurent polynomials

---
 peyl/polymat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 3483d90..81911de 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -186,6 +186,9 @@ def from_matrix(mat: Matrix, proj: bool = False, dtype: npt.DTypeLike = np.int64
 
         return A
 
+    # A mixture of integers and Laurent polynomials.
+    return from_matrix(mat.map(LPoly.coerce), proj=proj, dtype=dtype)
+
 
 def projectivise(A: npt.NDArray):
     """
-- 
2.43.0


From 63d31bd2a8ccaabb03849d3250c7a31a9b61c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 14/35] fix: pack the matrices of inverse generators
 projectively

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 24cd2bc..1ccf17e 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -116,8 +116,8 @@ class RepBase:
         are the images of their inverses.
         """
         gens, invs = self.artin_gens_invs()
-        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
-        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in invs])
+        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype(), proj=True) for x in gens])
+        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype(), proj=True) for x in invs])
         if self.p != 0:
             matgens %= self.p
             matinvs %= self.p
-- 
2.43.0


From 601a5f8c7e1146e14bdf4b8f540d2a5ca4a9e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 15/35] fix: reduce powers of the Garside element mod p

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 1ccf17e..2cbc06d 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -136,8 +136,8 @@ class RepBase:
         """
         table = cls._nf_table(self.n)
         assert 0 <= power < table.tau_order, "Only reduced powers should be passed to this function."
-        mat = self.evaluate_artin_word(table.artin_word[table.D])
-        return polymat.projectivise(polymat.from_matrix(mat ** power, proj=True))
+        mat = self.evaluate_artin_word(table.artin_word[table.D] * power)
+        return polymat.projectivise(polymat.from_matrix(mat, proj=True))
 
     def polymat_evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation, as a polymat."""
-- 
2.43.0


From 17876181ee29a6ffc6bcc30c15d6a81aaf1c4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 16/35] fix: reduce the generators of a JonesSummand mod p

---
 peyl/braidsearch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6d9df14..fd8ba6e 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -100,9 +100,13 @@ class JonesSummand:
         are the images of their inverses.
         """
         gens, invs = cell_matrices(self.n, self.r)
-        matgens = polymat.projectivise(polymat.pack([polymat.from_matrix(x, dtype=self.dtype()) for x in gens]))
-        matinvs = polymat.projectivise(polymat.pack([polymat.from_matrix(x, dtype=self.dtype(), proj=True) for x in invs]))
-        return matgens, matinvs
+        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.dtype()) for x in gens])
+        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.dtype(), proj=True) for x in invs])
+        if self.p != 0:
+            matgens %= self.p
+            matinvs %= self.p
+
+        return polymat.projectivise(matgens), polymat.projectivise(matinvs)
 
     def mul(self, left: npt.NDArray, right: npt.NDArray):
         """Multiplication in the representation (performs mod p if necessary, and projectivisation)."""
-- 
2.43.0


From a42e8d4f4bc5f1281ed51ed3108f6abdd9e723b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 17/35] fix: JonesSummand.dimension for r = 0

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index fd8ba6e..59426bc 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -85,7 +85,7 @@ class JonesSummand:
 
     def dimension(self) -> int:
         """The dimension of this representation."""
-        return math.comb(self.n, self.r) - math.comb(self.n, self.r - 1)
+        return tl.cell_dimension(self.n, self.r)
 
     @functools.cache
     def id(self):
-- 
2.43.0


From 23ddb65eade90c15958e0610c169e33d481f5c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 18/35] fix: JonesRep includes the last cell module

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index ccfe74f..74b23bc 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -555,7 +555,7 @@ class JonesRep:
         assert n >= 0
 
         self.n = n
-        self.cells = [TLCell(n, r) for r in range(n//2)]
+        self.cells = [TLCell(n, r) for r in range(n//2 + 1)]
 
 
 
-- 
2.43.0


From f58e42905d95c9bff52cb1a70905b73ebeee25f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 19/35] fix: projlen of the zero matrix is 0

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 81911de..aa86d72 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -279,7 +279,7 @@ def projlen(A: npt.NDArray) -> npt.NDArray:
     nonzeros = np.any(A, axis=(-3, -2))
     starts = np.argmax(nonzeros, axis=-1)
     ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
-    return ends - starts
+    return np.where(nonzeros.any(axis=-1), ends - starts, 0)
 
 def proj_starts_ends(A: npt.NDArray) -> Tuple[npt.NDArray, npt.NDArray]:
     """
-- 
2.43.0


From eab9ba51276ff392198cef12c54fab52f50685b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 20/35] fix: braidsearch.Tracker.valiate_buckets evaluates in
 its representation

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 59426bc..d5806ed 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -412,7 +412,7 @@ class Tracker:
         """Ensure that the braids in each bucket evaluate to the matrices stored there."""
         for bucket in self.buckets:
             braids, images = self.bucket_braids_images(bucket)
-            actual = evaluate_braids_of_same_length(BraidGroup(braids[0].n), braids, p=self.p)
+            actual = evaluate_braids_of_same_length(self.rep, braids)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {bucket}")
                 for i in range(len(braids)):
-- 
2.43.0


From c6a235f198e40f84a3ded922e2b3276b55091170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 21/35] fix: TLCell.project_vector checks the type of the
 morphism

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 74b23bc..db5683a 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -521,7 +521,7 @@ class TLCell:
 
     def project_vector(self, mor: TLMor):
         """Return the projection of mor, as a vector, into this cell module."""
-        assert mor.bot == self.n, f"Dimensions {mor.bot=} and {self.n=} incompatible."
+        assert (mor.top, mor.bot) == (self.n, self.n - 2 * self.r), f"Dimensions {mor.top=} and {mor.bot=} incompatible with {self}."
         return mor.quotient(self.n - 2 * self.r)
 
     def project_leftmult_matrix(self, mor: TLMor):
-- 
2.43.0


From da127a3a66adcbe246f9017da9e6f380c2d83319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 22/35] fix: dual normal forms on one strand

---
 peyl/braid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index ee9236e..774f12d 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -307,11 +307,11 @@ class NParTable(NFTable[NPar]):
         # Tau
         table.tau_left[0] = list(range(order))
         table.tau_right[0] = list(range(order))
-        table.tau_left[1] = [index[npar.left_complement().left_complement()] for npar in npars]
-        table.tau_right[1] = [index[npar.right_complement().right_complement()] for npar in npars]
-        for i in range(2, n):
-            table.tau_left[i] = [table.tau_left[1][table.tau_left[i-1][x]] for x in range(order)]
-            table.tau_right[i] = [table.tau_right[1][table.tau_right[i-1][x]] for x in range(order)]
+        tau_left = [index[npar.left_complement().left_complement()] for npar in npars]
+        tau_right = [index[npar.right_complement().right_complement()] for npar in npars]
+        for i in range(1, n):
+            table.tau_left[i] = [tau_left[table.tau_left[i-1][x]] for x in range(order)]
+            table.tau_right[i] = [tau_right[table.tau_right[i-1][x]] for x in range(order)]
 
 
         # Pairs
-- 
2.43.0


From 58d18d84af3feb62f3eede346617d9c892f2f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 23/35] fix: generators of the braid group on two strands

---
 peyl/braid.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 774f12d..6e2aaf0 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -367,7 +367,9 @@ class NFBase(Generic[T]):
     def artin_gens(cls, n: int):
         """Return a list of the n-1 Artin generators."""
 
-        return [cls(n, 0, (f,)) for f in cls._nf_table(n).artin_gens]
+        # On two strands the generator is the Garside element, so these need normalising.
+        table = cls._nf_table(n)
+        return [cls(n, *table.normalise_factors((f,))) for f in table.artin_gens]
 
     def canonical_factors(self) -> tuple[T, ...]:
         """
@@ -647,7 +649,7 @@ class DGNF(NFBase[NPar]):
         id = DGNF.identity(n)
         table = DGNF._nf_table(n)
         return {
-            (i, j): id if i == j else DGNF(n, 0, (table.bkl_gens[(min(i, j), max(i, j))],))
+            (i, j): id if i == j else DGNF(n, *table.normalise_factors((table.bkl_gens[(min(i, j), max(i, j))],)))
             for i in range(n) for j in range(n)
         }
 
@@ -726,8 +728,7 @@ class BraidGroup:
     @functools.cache
     def gens(self) -> tuple[GNF, ...]:
         """Return the Artin generators of the braid group, as GNFs."""
-        table = PermTable.create(self.n)
-        return tuple(GNF(self.n, 0, (table.artin_gens[i],)) for i in range(self.n - 1))
+        return tuple(GNF.artin_gens(self.n))
 
     @functools.cache
     def bkl_gens(self) -> dict[tuple[int, int], DGNF]:
@@ -737,8 +738,8 @@ class BraidGroup:
         """
         table = NParTable.create(self.n)
         return {
-            **{gen: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
-            **{gen[::-1]: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
+            **{gen: DGNF(self.n, *table.normalise_factors((idx,))) for gen, idx in table.bkl_gens.items()},
+            **{gen[::-1]: DGNF(self.n, *table.normalise_factors((idx,))) for gen, idx in table.bkl_gens.items()},
             **{(i, i): DGNF.identity(self.n) for i in range(self.n)},
         }
 
-- 
2.43.0


From 35198a7819394187267d07c0676593aeba65a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 24/35] fix: LKBRep returns the inverses of its generators,
 reduced mod p

---
 peyl/jonesrep.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 2cbc06d..1be9c11 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -295,7 +295,7 @@ class LKBRep(RepBase):
     def artin_gens_invs(self) -> tuple[list[Matrix], list[Matrix]]:
         t, q = self.t, self.q
         self.dimension()
-        gens = []
+        gens, invs = [], []
         for s in range(self.n - 1):
             gen: dict[tuple[int, int], dict[tuple[int, int], LPoly | int]] = {(i, j): {} for i in range(self.n) for j in range(i + 1, self.n)}
             for (i, j), col in gen.items():
@@ -327,4 +327,13 @@ class LKBRep(RepBase):
             ])
             gens += [mat]
 
-        return gens, gens
+            # The inverse comes from the cubic relation (σ - 1)(σ + q)(σ - a) = 0, where a = t q^2.
+            a = t * q * q
+            inv = mat * mat - mat.map(lambda x: x * (a + 1 - q)) - Matrix.identity(self.dimension()).map(lambda x: x * (q + a * (q - 1)))
+            invs += [inv.map(lambda x: -x * (a * q)**-1)]
+
+        if self.p != 0:
+            gens = [gen.map(lambda x: x.map(lambda n: n % self.p)) for gen in gens]
+            invs = [inv.map(lambda x: x.map(lambda n: n % self.p)) for inv in invs]
+
+        return gens, invs
-- 
2.43.0


From fa16fe480a6c3971d0871a42a92d0b88998c0eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 25/35] fix: the divisibility check in minpolycos is carried
 out

---
 peyl/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/poly.py b/peyl/poly.py
index 5e27ef1..4218b4e 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -215,5 +215,5 @@ class Poly:
         for d in (d for d in range(1, n) if n % d == 0):
             poly /= Poly.minpolycos(d).evaluate(x=Poly(0, 2))
 
-        assert(c % 2**i == 0 for i, c in enumerate(poly.coeffs))
+        assert all(c % 2**i == 0 for i, c in enumerate(poly.coeffs))
         return Poly(*(c // 2**i for i, c in enumerate(poly.coeffs)))
-- 
2.43.0


From 46d792d965076d599f5d52379afcd8152949dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 26/35] fix: search.py refuses n = 7, for which there are no
 permutation tables

---
 search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.py b/search.py
index 4ecea4a..9d78f51 100644
--- a/search.py
+++ b/search.py
@@ -41,7 +41,7 @@ parser.add_argument('--database', type=str, help='Name of database file to recor
 parser.add_argument('--stop-at-projlen-1', action='store_true', help='Exit once near-kernel elements have been found')
 
 args = parser.parse_args()
-assert 3 <= args.n <= 7
+assert 3 <= args.n <= 6
 assert 0 <= 2*args.r <= args.n
 assert 0 < args.p
 
-- 
2.43.0


From 472cdcfb0c793b0857de6f18e30d13ba9a39719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 27/35] fix: TLDiag takes no bubble count, which it ignored

---
 peyl/tl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index db5683a..e43fca9 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -170,7 +170,7 @@ class TLDiag:
     bot: int
     seq: tuple[int, ...]
 
-    def __init__(self, top: int, bot: int, seq: Sequence[int], bubbles: int = 0):
+    def __init__(self, top: int, bot: int, seq: Sequence[int]):
         assert 0 <= top
         assert 0 <= bot
         assert top + bot == len(seq)
@@ -182,7 +182,7 @@ class TLDiag:
 
     @classmethod
     def id(cls, n: int) -> TLDiag:
-        return TLDiag(n, n, tuple(2 * n - i - 1 for i in range(2 * n)), 0)
+        return TLDiag(n, n, tuple(2 * n - i - 1 for i in range(2 * n)))
 
     def __mul__(upper: TLDiag, lower: TLDiag) -> tuple[TLDiag, int]:
         """Vertical composition of TL diagrams, returning a pair (new diagram, # bubbles)."""
-- 
2.43.0


From 68a9448a42c96b7d7caef4fff8b3cf31ed5949ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 28/35] fix: spell NPar.__post_init__ so that noncrossing
 partitions are validated

---
 peyl/noncrossing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 91d2e8f..18fc7f2 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -97,7 +97,7 @@ class NPar:
     n: int
     inv: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         """Check that inv is really an involution of the right kind."""
         assert len(self.inv) == 2*self.n
         assert tl.is_crossingless_matching(self.inv)
-- 
2.43.0


From 296721f4bd14ba7528d80a2872735de56fdb449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:01 +0000
Subject: [PATCH 29/35] fix: Poly repr shows the constant coefficient instead
 of 1

---
 peyl/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/poly.py b/peyl/poly.py
index 4218b4e..acc103f 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -71,7 +71,7 @@ class Poly:
 
             sign = ' + ' if (c > 0 and parts) else ' - ' if (c < 0 and parts) else '' if c > 0 else '-'
             term = '' if i == 0 else 'x' if i == 1 else f'x^{i}'
-            coeff = '1' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
+            coeff = f'{abs(c)}' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
             parts += [sign + coeff + term]
 
         return f"Poly('{''.join(parts)}')"
-- 
2.43.0


From 7ed047e3ba50e760646f964759684e891e392e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:25 +0000
Subject: [PATCH 30/35] fix: column labels of a framed matrix display like its
 row labels

---
 peyl/show.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/show.py b/peyl/show.py
index 9a22b96..68ffaf4 100644
--- a/peyl/show.py
+++ b/peyl/show.py
@@ -68,7 +68,7 @@ class FramedMatrix:
             # First row, with an empty cell at the start.
             '<tr>',
             '<td></td>',
-            *['<td style="text-align: center">' + x._repr_html_() + '</td>' for x in self.cols],
+            *['<td style="text-align: center">' + html_repr(x) + '</td>' for x in self.cols],
             '</tr>',
             ''.join([
                 html
-- 
2.43.0


From ff264b231de8bdb412f37182b7f82ea75d90d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:01 +0000
Subject: [PATCH 31/35] fix: counting normal forms refuses negative lengths,
 like producing them

---
 peyl/braid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index 6e2aaf0..deaa61e 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -173,6 +173,8 @@ class NFTable(Generic[T]):
         """
         Count the number of normal forms that the same call to normal_forms() would produce.
         """
+        assert length >= 0
+
         if length == 0:
             return 1
 
-- 
2.43.0


From 3ca84af7acba1f384ae0009aa547beb3416f4ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:04 +0000
Subject: [PATCH 32/35] fix: sampling a normal form refuses negative lengths

---
 peyl/braid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index deaa61e..7ce3889 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -193,6 +193,8 @@ class NFTable(Generic[T]):
 
     def sample(self, length: int, rand: random.Random) -> tuple[int, ...]:
         """Sample a normal form of the given length."""
+        assert length >= 0
+
         last = self.D
         factors = [-1] * length
         for i in range(length):
-- 
2.43.0


From 47ac31d1eda29d0904a934058f07391a3a0071cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:45 +0000
Subject: [PATCH 33/35] fix: to_matrix gives polynomials over integers, not
 over fixed-width numpy scalars

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index aa86d72..cc6cb6d 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -150,7 +150,7 @@ def to_matrix(A):
     assert len(A.shape) == 3
     I, J, _ = A.shape
     return Matrix.from_rows([
-        [LPoly(0, A[i, j, :]) for j in range(J)]
+        [LPoly(0, A[i, j, :].tolist()) for j in range(J)]
         for i in range(I)
     ])
 
-- 
2.43.0


From 6f3b829e11c847a3e2aa894f19cfdedbf4ada85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:47 +0000
Subject: [PATCH 34/35] fix: from_matrix gives integer and zero matrices the
 requested type and shape

---
 peyl/polymat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index cc6cb6d..c1c48f1 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -160,11 +160,11 @@ def from_matrix(mat: Matrix, proj: bool = False, dtype: npt.DTypeLike = np.int64
     If proj is true, then the matrix will be multiplied by a power of v, making it a polynomial matrix first.
     """
     if all(isinstance(x, int) for x in mat.data):
-        return np.array(mat.rows())[..., None]
+        return np.array(mat.data, dtype=dtype).reshape(mat.nrows, mat.ncols, 1)
 
     if all(isinstance(x, LPoly) for x in mat.data):
         if all(x.is_zero() for x in mat.data):
-            return np.zeros((mat.nrows, mat.ncols, 1), dtype=int)
+            return np.zeros((mat.nrows, mat.ncols, 1), dtype=dtype)
 
         minval = min(x.valuation() for x in mat.data if not x.is_zero())
         if minval < 0:
-- 
2.43.0


From 752575565779e7546a2b3210124b19d224297456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:43 +0000
Subject: [PATCH 35/35] fix: substrings leaves out the prefixes and the longest
 suffixes of the braids

---
 peyl/braidsearch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index d5806ed..9fdf4be 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -514,9 +514,10 @@ class Tracker:
         assert bucket in self.buckets
         braids = self.bucket_braids[bucket]
         length = braids[0].garside_length()
-        for i in range(1, length - 1):
+        for i in range(length - 1):
             images = evaluate_prefixes_of_same_length(self.rep, [braid.substring(i, length) for braid in braids])
-            for j in range(i+2, length - 1):
+            # The braids themselves, i.e. (i, j) = (0, length), are already in the bucket.
+            for j in range(i+2, length + 1 if i > 0 else length):
                 self.add_braids_images([braid.substring(i, j) for braid in braids], images[j-i])
 
     def bootstrap_exhaustive(self, upto_length: int):
-- 
2.43.0

