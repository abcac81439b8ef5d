"""Reference definitions for braid: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import abc
import ast
import dataclasses
import functools
import itertools
import math
import operator
import random
from collections import defaultdict
from typing import Generic, Iterable, Sequence, TypeVar
from . import permutations
from .noncrossing import NPar, catalan
from .permutations import Permutation, SymmetricGroup

class NFTable:

    def is_factors_normalised(self, factors):
        for i in range(len(factors) - 1):
            if not self.is_normalised[factors[i]][factors[i + 1]]:
                return False
        return len(factors) == 0 or (factors[0] != self.D and factors[-1] != self.id)

    def normalise_factors(self, seq):
        factors = list(seq)
        for i in range(len(factors) - 1):
            factors[i], factors[i + 1] = self.renorm[factors[i]][factors[i + 1]]
            for j in range(i - 1, -1, -1):
                factors[j], factors[j + 1] = self.renorm[factors[j]][factors[j + 1]]
            for j in range(i + 1, len(factors) - 1):
                factors[j], factors[j + 1] = self.renorm[factors[j]][factors[j + 1]]
        l = 0
        r = len(factors)
        while l < r and factors[l] == self.D:
            l += 1
        while l < r and factors[r - 1] == self.id:
            r -= 1
        return (l, tuple(factors[l:r]))

    def product_normalised_factors(self, left, right):
        if len(left) == 0 or len(right) == 0 or self.is_normalised[left[-1]][right[0]]:
            return (0, (*left, *right))
        factors = [*left, *right]
        for i in range(len(left) - 1, len(factors) - 1):
            x, y = self.renorm[factors[i]][factors[i + 1]]
            if x == factors[i]:
                break
            factors[i] = x
            factors[i + 1] = y
            for j in range(i - 1, -1, -1):
                x, y = self.renorm[factors[j]][factors[j + 1]]
                if x == factors[j]:
                    break
                factors[j] = x
                factors[j + 1] = y
        l = 0
        r = len(factors)
        while l < r and factors[l] == self.D:
            l += 1
        while l < r and factors[r - 1] == self.id:
            r -= 1
        return (l, tuple(factors[l:r]))

    def normal_forms(self, length, following):
        assert length >= 0
        word = [-1] * length

        def helper(i, following):
            if i == length:
                yield tuple(word)
                return
            for x in self.follows[following]:
                word[i] = x
                yield from helper(i + 1, x)
        yield from helper(0, following if isinstance(following, int) else self.D)

    def count_normal_forms(self, length, following):
        assert length >= 0
        if length == 0:
            return 1
        last = following if isinstance(following, int) else self.D
        counts = {x: 1 for x in self.follows[last]}
        for _ in range(length - 1):
            new_counts: defaultdict[int, int] = defaultdict(int)
            for x, count in counts.items():
                for y in self.follows[x]:
                    new_counts[y] += count
            counts = new_counts
        return sum(counts.values())

    def sample(self, length, rand):
        assert length >= 0
        last = self.D
        factors = [-1] * length
        for i in range(length):
            last = factors[i] = rand.choice(self.follows[last])
        return tuple(factors)

class PermTable:

    @staticmethod
    def create(n):
        assert n >= 0
        if n >= 7:
            raise ValueError()
        order = math.factorial(n)
        symgrp = SymmetricGroup(n)
        perms = list(symgrp.elements())
        index = {perm: i for i, perm in enumerate(perms)}
        table = PermTable(n=n, order=math.factorial(n), divs=perms, index=index, id=index[symgrp.id()], D=index[symgrp.longest_element()], artin_gens=[index[gen] for gen in symgrp.cox_gens()], left_comp=[-1] * order, right_comp=[-1] * order, tau_order=2, tau_left=[list(range(order)), [-1] * order], tau_right=[list(range(order)), [-1] * order], renorm=[[(0, 0)] * order for _ in range(order)], is_normalised=[[False] * order for _ in range(order)], follows=[[] for _ in range(order)], artin_word=[[] for _ in range(order)])
        w0 = symgrp.longest_element()
        for i, perm in enumerate(perms):
            table.left_comp[i] = index[w0 * perm.inv()]
            table.right_comp[i] = index[perm.inv() * w0]
        for i, perm in enumerate(perms):
            table.tau_left[1][i] = table.tau_right[1][i] = index[w0 * perm * w0]
        coxgens = symgrp.cox_gens()
        for x, y in itertools.product(perms, perms):
            w, z = (x, y)
            while (diff := (z.left_descent_set() - w.right_descent_set())):
                s = diff.pop()
                w = w * coxgens[s]
                z = coxgens[s] * z
            table.renorm[index[x]][index[y]] = (index[w], index[z])
            if (x, y) == (w, z):
                table.is_normalised[index[x]][index[y]] = True
                if index[y] != table.id and index[y] != table.D:
                    table.follows[index[x]] += [index[y]]
        for i, perm in enumerate(perms):
            table.artin_word[i] = [(s, 1) for s in perm.shortlex()]
        return table

class NParTable:

    @staticmethod
    def create(n):
        assert n >= 0
        order = catalan(n)
        if order >= 5000:
            raise ValueError()
        npars = list(NPar.all_of_size(n))
        index = {npar: i for i, npar in enumerate(npars)}
        table = NParTable(n=n, order=order, divs=npars, index=index, artin_gens=[index[NPar.from_components(n, [[i, i + 1]])] for i in range(n - 1)], bkl_gens={(i, j): index[NPar.from_components(n, [[i, j]])] for i, j in itertools.combinations(range(n), 2)}, id=index[NPar.finest(n)], D=index[NPar.coarsest(n)], left_comp=[index[npar.left_complement()] for npar in npars], right_comp=[index[npar.right_complement()] for npar in npars], tau_order=n, tau_left=[[] for _ in range(n)], tau_right=[[] for _ in range(n)], renorm=[[(0, 0)] * order for _ in range(order)], is_normalised=[[False] * order for _ in range(order)], follows=[[] for _ in range(order)], artin_word=[npar.artin_word() for npar in npars])
        table.tau_left[0] = list(range(order))
        table.tau_right[0] = list(range(order))
        tau_left = [index[npar.left_complement().left_complement()] for npar in npars]
        tau_right = [index[npar.right_complement().right_complement()] for npar in npars]
        for i in range(1, n):
            table.tau_left[i] = [tau_left[table.tau_left[i - 1][x]] for x in range(order)]
            table.tau_right[i] = [tau_right[table.tau_right[i - 1][x]] for x in range(order)]
        for x, y in itertools.product(npars, npars):
            w, z = (x, y)
            while (compatible_edges := (set(w.right_complement().edges()) & set(z.edges()))):
                edge = compatible_edges.pop()
                w_perm, edge_perm, z_perm = (w.to_permutation(), NPar.from_components(n, [edge]).to_permutation(), z.to_permutation())
                w_perm = w_perm * edge_perm
                z_perm = edge_perm * z_perm
                w, z = (NPar.from_permutation(w_perm), NPar.from_permutation(z_perm))
            table.renorm[index[x]][index[y]] = (index[w], index[z])
            if (w, z) == (x, y):
                table.is_normalised[index[x]][index[y]] = True
                if index[y] != table.id and index[y] != table.D:
                    table.follows[index[x]] += [index[y]]
        return table

class NFBase:

    @abc.abstractmethod
    def __init__(self, n, power, factors):
        ...

    def _nf_table(cls, n):
        ...

    def __post_init__(self):
        assert self._nf_table(self.n).is_factors_normalised(self.factors)

    @classmethod
    def identity(cls, n):
        return cls(n, 0, ())

    @classmethod
    def artin_gens(cls, n):
        table = cls._nf_table(n)
        return [cls(n, *table.normalise_factors((f,))) for f in table.artin_gens]

    def canonical_factors(self):
        table = self._nf_table(self.n)
        return tuple((table.divs[f] for f in self.factors))

    def canonical_factor(self, i):
        table = self._nf_table(self.n)
        return table.divs[self.factors[i]]

    def canonical_decomposition(self):
        return (self.power, self.canonical_factors())

    def canonical_length(self):
        return len(self.factors)

    def inf(self):
        return self.power

    def sup(self):
        return self.power + len(self.factors)

    def __mul__(self, other):
        if isinstance(other, self.__class__):
            if self.n != other.n:
                raise ValueError()
            table = self._nf_table(self.n)
            can_concatenate = other.power == 0 and (len(self.factors) == 0 or len(other.factors) == 0 or table.is_normalised[self.factors[-1]][other.factors[0]])
            if can_concatenate:
                return self.__class__(self.n, self.power, self.factors + other.factors)
            factors_conjugated = [table.tau_right[other.power % table.tau_order][x] for x in self.factors]
            d, factors = table.product_normalised_factors(factors_conjugated, other.factors)
            return self.__class__(self.n, self.power + other.power + d, factors)
        return NotImplemented

    def inv(self):
        table = self._nf_table(self.n)
        factors = [table.left_comp[x] for x in self.factors[::-1]]
        delta_pow = -self.power
        for i in range(len(factors) - 1, -1, -1):
            factors[i] = table.tau_right[delta_pow % table.tau_order][factors[i]]
            delta_pow -= 1
        d, normalised = table.normalise_factors(factors)
        return self.__class__(self.n, delta_pow + d, tuple(normalised))

    def __pow__(self, exp):
        acc = self.identity(self.n)
        if exp == 0:
            return acc
        pow2 = self if exp > 0 else self.inv()
        exp = abs(exp)
        while exp:
            if exp % 2 == 1:
                acc = acc * pow2
            exp //= 2
            pow2 = pow2 * pow2
        return acc

    def artin_word(self):
        table = self._nf_table(self.n)
        Delta = table.artin_word[table.D]
        if self.power < 0:
            Delta = [(s, -e) for s, e in Delta[::-1]]
        return Delta * abs(self.power) + [letter for factor in self.factors for letter in table.artin_word[factor]]

    def magma_artin_word(self):
        artin_word = self.artin_word()
        assert all((abs(e) == 1 for _, e in artin_word))
        return [(i + 1) * e for i, e in artin_word]

    def substring(self, i, j):
        assert 0 <= i <= j <= len(self.factors)
        return self.__class__(self.n, self.power, self.factors[i:j])

    def nf_descendants(self):
        table = self._nf_table(self.n)
        return (self.__class__(self.n, self.power, (*self.factors, *suffix)) for suffix in table.normal_forms(length=1, following=self.factors[-1] if self.factors else None))

    def nf_suffixes(self, length):
        table = self._nf_table(self.n)
        return (self.__class__(self.n, 0, suffix) for suffix in table.normal_forms(length=length, following=self.factors[-1] if self.factors else None))

    @classmethod
    def count_all_of_length(cls, n, length):
        return cls._nf_table(n).count_normal_forms(length)

    @classmethod
    def all_of_length(cls, n, length, power):
        return (cls(n, power, factors) for factors in cls._nf_table(n).normal_forms(length))

    @classmethod
    def sample(cls, n, length, rand):
        rand = rand if rand is not None else random.Random()
        table = cls._nf_table(n)
        return cls(n, 0, table.sample(length, rand))

class GNF:

    @classmethod
    def _nf_table(cls, n):
        return PermTable.create(n)

    @staticmethod
    def from_perm(perm):
        return GNF.from_perm_seq(len(perm.word), [perm])

    @staticmethod
    def from_perm_seq(n, perms):
        assert all((n == len(perm.word) for perm in perms))
        table = PermTable.create(n)
        power, factors = table.normalise_factors([table.index[perm] for perm in perms])
        return GNF(n, power, tuple(factors))

    @staticmethod
    def from_artin_word(n, word):
        table = PermTable.create(n)
        factors = []
        delta_pows = []
        for i, e in word:
            if e >= 0:
                factors += [table.artin_gens[i]] * e
                delta_pows += [0] * e
            else:
                factors += [table.left_comp[table.artin_gens[i]]] * abs(e)
                delta_pows += [-1] * abs(e)
        delta_pow = 0
        for i in range(len(factors) - 1, -1, -1):
            factors[i] = table.tau_right[delta_pow % table.tau_order][factors[i]]
            delta_pow += delta_pows[i]
        power, factors_norm = table.normalise_factors(factors)
        return GNF(n, delta_pow + power, tuple(factors_norm))

    @staticmethod
    def _factors_to_DGNF(n):
        table = PermTable.create(n)
        return [DGNF.from_artin_word(n, GNF.from_perm(perm).artin_word()) for perm in table.divs]

    def to_DGNF(self):
        table = PermTable.create(self.n)
        dgnfs = GNF._factors_to_DGNF(self.n)
        result = functools.reduce(operator.mul, [dgnfs[f] for f in self.factors], DGNF.identity(self.n))
        if self.power != 0:
            delta_pow = dgnfs[table.D] ** self.power
            result = delta_pow * result
        return result

    def garside_length(self):
        return self.canonical_length()

class DGNF:

    @classmethod
    def _nf_table(cls, n):
        return NParTable.create(n)

    @staticmethod
    def from_npar(npar):
        return DGNF.from_npar_seq(npar.n, (npar,))

    @staticmethod
    def bkl_gens(n):
        id = DGNF.identity(n)
        table = DGNF._nf_table(n)
        return {(i, j): id if i == j else DGNF(n, *table.normalise_factors((table.bkl_gens[min(i, j), max(i, j)],))) for i in range(n) for j in range(n)}

    @staticmethod
    def from_npar_seq(n, npars):
        assert all((n == npar.n for npar in npars))
        table = NParTable.create(n)
        power, factors = table.normalise_factors([table.index[npar] for npar in npars])
        return DGNF(n, power, tuple(factors))

    @staticmethod
    def from_artin_word(n, word):
        table = NParTable.create(n)
        factors = []
        delta_pows = []
        for i, e in word:
            if e >= 0:
                factors += [table.artin_gens[i]] * e
                delta_pows += [0] * e
            else:
                factors += [table.left_comp[table.artin_gens[i]]] * abs(e)
                delta_pows += [-1] * abs(e)
        delta_pow = 0
        for i in range(len(factors) - 1, -1, -1):
            factors[i] = table.tau_right[delta_pow % table.tau_order][factors[i]]
            delta_pow += delta_pows[i]
        power, factors = table.normalise_factors(factors)
        return DGNF(n, delta_pow + power, tuple(factors))

    @staticmethod
    def _factors_to_GNF(n):
        table = NParTable.create(n)
        return [GNF.from_artin_word(n, DGNF.from_npar(npar).artin_word()) for npar in table.divs]

    def to_GNF(self):
        table = NParTable.create(self.n)
        gnfs = DGNF._factors_to_GNF(self.n)
        result = functools.reduce(operator.mul, [gnfs[f] for f in self.factors], GNF.identity(self.n))
        if self.power != 0:
            delta_pow = gnfs[table.D] ** self.power
            result = delta_pow * result
        return result

class BraidGroup:

    def __post_init__(self):
        assert self.n >= 1

    def id(self):
        return GNF(self.n, 0, ())

    def gens(self):
        return tuple(GNF.artin_gens(self.n))

    def bkl_gens(self):
        table = NParTable.create(self.n)
        return {**{gen: DGNF(self.n, *table.normalise_factors((idx,))) for gen, idx in table.bkl_gens.items()}, **{gen[::-1]: DGNF(self.n, *table.normalise_factors((idx,))) for gen, idx in table.bkl_gens.items()}, **{(i, i): DGNF.identity(self.n) for i in range(self.n)}}

    def invs(self):
        return [x.inv() for x in self.gens()]

    def positive_lift(self, perm):
        if len(perm.word) != self.n:
            raise ValueError()
        if permutations.is_identity(perm.word):
            return GNF(self.n, 0, ())
        if permutations.is_longest_element(perm.word):
            return GNF(self.n, 1, ())
        table = PermTable.create(self.n)
        return GNF(self.n, 0, (table.index[perm],))

    def from_npar(self, npar):
        if npar.n != self.n:
            raise ValueError()
        table = NParTable.create(self.n)
        index = table.index[npar]
        if index == table.id:
            return DGNF(self.n, 0, ())
        elif index == table.D:
            return DGNF(self.n, 1, ())
        else:
            return DGNF(self.n, 0, (index,))

    def from_gnf_pair(self, pair):
        inf, perm_words = pair
        return GNF(self.n, inf, ()) * functools.reduce(operator.mul, map(self.positive_lift, map(Permutation, perm_words)), self.id())

    def all_of_garside_length(self, length, power):
        return GNF.all_of_length(n=self.n, length=length, power=power)

    def count_all_of_garside_length(self, length):
        return GNF.count_all_of_length(self.n, length)

    def sample_braid_perm(self, length, rand):
        return GNF.sample(self.n, length, rand=rand)

def adapt_braid(braid):
    return f'{braid.__class__.__name__}{dataclasses.astuple(braid)}'

def convert_braid(data):
    if data.startswith(b'GNF'):
        return GNF(*ast.literal_eval(data[3:].decode('utf-8')))
    if data.startswith(b'DGNF'):
        return DGNF(*ast.literal_eval(data[4:].decode('utf-8')))
    raise ValueError()

def register_sqlite3_adapters():
    import sqlite3
    sqlite3.register_adapter(GNF, adapt_braid)
    sqlite3.register_adapter(DGNF, adapt_braid)
    sqlite3.register_converter('BRAID', convert_braid)
    sqlite3.register_converter('BRAID', convert_braid)


# display
class GNF:

    def __repr__(self):
        return f'GNF{self.canonical_decomposition()!r}'

    def _repr_latex_(self):
        power, perms = self.canonical_decomposition()
        return f'$(\\Delta^{{{power}}};' + ', '.join((perm._repr_latex_().strip('$') for perm in perms)) + ')$'

class DGNF:

    def __repr__(self):
        return f'DGNF{self.canonical_decomposition()!r}'

    def _repr_latex_(self):
        power, npars = self.canonical_decomposition()
        return f'$(\\delta^{{{power}}};' + ', '.join((npar._repr_latex_().strip('$') for npar in npars)) + ')$'
