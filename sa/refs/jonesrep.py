"""Reference definitions for jonesrep: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import abc
import functools
import math
import operator
from typing import Sequence
import numpy as np
from . import polymat, tl
from .braid import DGNF, GNF, NFBase
from .lpoly import LPoly
from .matrix import Matrix
from .noncrossing import NPar
from .permutations import Permutation

def tl_gens_invs(n):
    v = LPoly(0, (0, 1))
    es = [tl.TLMor.e(i, n) for i in range(n - 1)]
    gens = [-v * (e - v ** (-1)) for e in es]
    invs = [-v ** (-1) * (e - v) for e in es]
    assert all((x * y == tl.TLMor.id(n) for x, y in zip(gens, invs)))
    return (gens, invs)

def cell_matrix(tlmor, r):
    assert tlmor.top == tlmor.bot
    basis = tl.cell_basis(tlmor.bot, r)
    columns = [[prod.quotient(tlmor.top - 2 * r).coefficient(b) for b in basis] for prod in [tlmor * b for b in basis]]
    return Matrix.from_rows(tuple(zip(*columns)))

def cell_matrices(n, r):
    tlgens, tlinvs = tl_gens_invs(n)
    return ([cell_matrix(g, r) for g in tlgens], [cell_matrix(g, r) for g in tlinvs])

class RepBase:

    def __init__(self):
        self._polymat_braid_factor = functools.cache(self._polymat_braid_factor)
        self._polymat_delta_power = functools.cache(self._polymat_delta_power)
        self.polymat_artin_gens_invs = functools.cache(self.polymat_artin_gens_invs)

    @abc.abstractmethod
    def dimension(self):
        pass

    @abc.abstractmethod
    def artin_gens_invs(self):
        pass

    def id(self):
        return Matrix.identity(self.dimension())

    def polymat_dtype(self):
        return np.int32 if self.p > 0 else np.int64

    def evaluate_artin_word(self, word):
        gens, invs = self.artin_gens_invs()
        product: Matrix = functools.reduce(operator.mul, [gens[i] ** e if e >= 0 else invs[i] ** abs(e) for i, e in word], self.id())
        if self.p != 0:
            product = product.map(lambda x: x if isinstance(x, int) else x.map(lambda n: n % self.p))
        return product

    def evaluate(self, obj):
        return self.evaluate_artin_word(obj.artin_word())

    def polymat_id(self):
        return np.identity(self.dimension(), dtype=self.polymat_dtype())[..., None]

    def polymat_mul(self, left, right):
        product = polymat.mul(left, right)
        if self.p != 0:
            product = product % self.p
        return polymat.projectivise(product)

    def polymat_artin_gens_invs(self):
        gens, invs = self.artin_gens_invs()
        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype(), proj=True) for x in gens])
        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype(), proj=True) for x in invs])
        if self.p != 0:
            matgens %= self.p
            matinvs %= self.p
        return (polymat.projectivise(matgens), polymat.projectivise(matinvs))

    def _polymat_braid_factor(self, cls, factor):
        mat = self.evaluate_artin_word(cls._nf_table(self.n).artin_word[factor])
        return polymat.projectivise(polymat.from_matrix(mat, proj=True))

    def _polymat_delta_power(self, cls, power):
        table = cls._nf_table(self.n)
        assert 0 <= power < table.tau_order
        mat = self.evaluate_artin_word(table.artin_word[table.D] * power)
        return polymat.projectivise(polymat.from_matrix(mat, proj=True))

    def polymat_evaluate_artin_word(self, word):
        gens, invs = self.polymat_artin_gens_invs()
        product = self.polymat_id()
        for i, e in word:
            for _ in range(abs(e)):
                product = polymat.mul(product, gens[i] if e >= 0 else invs[i])
                if self.p != 0:
                    product %= self.p
        return polymat.projectivise(product)

    def polymat_evaluate(self, obj):
        return self.polymat_evaluate_artin_word(obj.artin_word())

    def polymat_evaluate_braid(self, braid):
        return self.polymat_evaluate_braids_of_same_length([braid])[0]

    def polymat_evaluate_braids_of_same_length(self, braids):
        length = braids[0].canonical_length()
        cls = braids[0].__class__
        assert all((braid.canonical_length() == length and braid.__class__ == cls for braid in braids))
        table = cls._nf_table(self.n)
        result = polymat.pack([self._polymat_delta_power(cls, braid.power % table.tau_order) for braid in braids])
        for i in range(length):
            images = polymat.pack([self._polymat_braid_factor(cls, braid.factors[i]) for braid in braids])
            result = self.polymat_mul(result, images)
        return result

    def polymat_evaluate_braid_integers_of_same_length(self, cls, sequences):
        length = len(sequences[0])
        assert all((len(seq) == length for seq in sequences))
        table = cls._nf_table(self.n)
        order = table.order
        assert all((0 <= x < order for seq in sequences for x in seq))
        result = polymat.pack([self._polymat_braid_factor(cls, table.id)])
        for i in range(length):
            images = polymat.pack([self._polymat_braid_factor(cls, seq[i]) for seq in sequences])
            result = self.polymat_mul(result, images)
        return result

class JonesCellRep:

    def __init__(self, n, r, p):
        super().__init__()
        assert n >= 1
        assert n - 2 * r >= 0
        assert p >= 0
        self.n = n
        self.r = r
        self.p = p

    def dimension(self):
        if self.r == 0:
            return 1
        return math.comb(self.n, self.r) - math.comb(self.n, self.r - 1)

    def tl_basis(self):
        return tl.cell_basis(self.n, self.r)

    def artin_gens_invs(self):
        gens, invs = cell_matrices(self.n, self.r)
        if self.p != 0:
            gens = [gen.map(lambda x: x if isinstance(x, int) else x.map(lambda n: n % self.p)) for gen in gens]
            invs = [inv.map(lambda x: x if isinstance(x, int) else x.map(lambda n: n % self.p)) for inv in invs]
        return (gens, invs)

class LKBRep:

    def __init__(self, n, p, q, t):
        super().__init__()
        assert n >= 1
        assert p >= 0
        assert q.is_unit()
        assert t.is_unit()
        self.n = n
        self.p = p
        self.q = q
        self.t = t

    def dimension(self):
        return math.comb(self.n, 2)

    def artin_gens_invs(self):
        t, q = (self.t, self.q)
        self.dimension()
        gens, invs = ([], [])
        for s in range(self.n - 1):
            gen: dict[tuple[int, int], dict[tuple[int, int], LPoly | int]] = {(i, j): {} for i in range(self.n) for j in range(i + 1, self.n)}
            for (i, j), col in gen.items():
                if i == s and j == s + 1:
                    col[i, j] = t * q * q
                elif i < s and j == s:
                    col[i, j] = 1 - q
                    col[i, j + 1] = q
                elif i < s and j == s + 1:
                    col[i, j - 1] = 1
                    col[j - 1, j] = t * q ** (j - i) * (q - 1)
                elif i == s and s + 1 < j:
                    col[i, i + 1] = t * q * (q - 1)
                    col[i + 1, j] = q
                elif i == s + 1 and s + 1 < j:
                    col[i - 1, j] = 1
                    col[i, j] = 1 - q
                elif i < j < s or s + 1 < i < j:
                    col[i, j] = 1
                elif i < s < s + 1 < j:
                    col[i, j] = 1
                    col[s, s + 1] = t * q ** (s - i) * (q - 1) ** 2
                else:
                    raise ValueError()
            mat = Matrix.from_rows([[LPoly.coerce(gen[col].get(row, 0)) for col in gen] for row in gen])
            gens += [mat]
            a = t * q * q
            inv = mat * mat - mat.map(lambda x: x * (a + 1 - q)) - Matrix.identity(self.dimension()).map(lambda x: x * (q + a * (q - 1)))
            invs += [inv.map(lambda x: -x * (a * q) ** (-1))]
        if self.p != 0:
            gens = [gen.map(lambda x: x.map(lambda n: n % self.p)) for gen in gens]
            invs = [inv.map(lambda x: x.map(lambda n: n % self.p)) for inv in invs]
        return (gens, invs)


# display
class JonesCellRep:

    def __repr__(self):
        ring = 'ℤ' if self.p == 0 else f'F{self.p}'
        return f'Two-rowed representation ({self.n - self.r}, {self.r}) of B{self.n}, over {ring}'
