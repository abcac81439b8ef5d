"""Reference definitions for noncrossing: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import dataclasses
import itertools
import math
from typing import Iterable, TypeVar
from . import permutations, tl
from .permutations import Permutation

def catalan(n):
    return math.comb(2 * n, n) // (n + 1)

def catalan(n):
    return math.comb(2 * n, n) - math.comb(2 * n, n + 1)

def are_pairwise_disjoint(components):
    seen = set()
    for component in components:
        for elem in component:
            if elem in seen:
                return False
            seen.add(elem)
    return True

def bkl_gen_to_artin_word(s, t):
    if s == t:
        return []
    if s > t:
        s, t = (t, s)
    return [*[(i, 1) for i in range(t - 1, s, -1)], (s, 1), *[(i, -1) for i in range(s + 1, t)]]

def npar_component_to_artin_word(component):
    comp = sorted(component)
    assert len(comp) == len(set(comp))
    return [letter for i in range(len(comp) - 2, -1, -1) for letter in bkl_gen_to_artin_word(comp[i], comp[i + 1])]

class NPar:

    def __post_init__(self):
        assert len(self.inv) == 2 * self.n
        assert tl.is_crossingless_matching(self.inv)

    @staticmethod
    def finest(n):
        return NPar(n, tuple((i + 1 if i % 2 == 0 else i - 1 for i in range(2 * n))))

    @staticmethod
    def coarsest(n):
        return NPar(n, tuple(((i + 1) % (2 * n) if i % 2 == 1 else (i - 1) % (2 * n) for i in range(2 * n))))

    @staticmethod
    def all_of_size(n):
        assert n >= 0
        return (NPar(n, seq) for seq in tl.generate_sequences(2 * n))

    @staticmethod
    def from_components(n, components):
        if not are_pairwise_disjoint(components):
            raise ValueError()
        if not all((0 <= x < n for comp in components for x in comp)):
            raise ValueError()
        inv = list(NPar.finest(n).inv)
        for comp in [sorted(comp) for comp in components]:
            for i in range(len(comp)):
                a, b = (comp[i], comp[(i + 1) % len(comp)])
                inv[2 * a + 1] = 2 * b
                inv[2 * b] = 2 * a + 1
        if not tl.is_crossingless_matching(inv):
            raise ValueError()
        return NPar(n, tuple(inv))

    @staticmethod
    def from_permutation(perm):
        if not permutations.is_parallel_descending_cycles(perm.word):
            raise ValueError()
        return NPar.from_components(len(perm.word), perm.disjoint_cycles())

    def to_permutation(self):
        word = [0] * self.n
        for i in range(self.n):
            word[i] = self.inv[2 * i] // 2
        return Permutation(tuple(word))

    def components(self):
        seen = [False] * self.n
        components: list[tuple[int, ...]] = []
        for i in range(self.n):
            if seen[i]:
                continue
            j = i
            group = []
            while True:
                group.append(j)
                seen[j] = True
                j = self.inv[2 * j + 1] // 2
                if i == j:
                    break
            components += [tuple(group)]
        return components

    def edges(self):
        return [pair for comp in self.components() for pair in itertools.combinations(comp, 2)]

    def left_complement(self):
        return NPar(self.n, tuple(((self.inv[(i + 1) % (2 * self.n)] - 1) % (2 * self.n) for i in range(2 * self.n))))

    def right_complement(self):
        return NPar(self.n, tuple(((self.inv[(i - 1) % (2 * self.n)] + 1) % (2 * self.n) for i in range(2 * self.n))))

    def artin_word(self):
        return [letter for comp in self.components() for letter in npar_component_to_artin_word(comp)]


# display
class NPar:

    def __repr__(self):
        return f'NPar({self.n}, [' + ', '.join((repr(set(comp)) for comp in self.components() if len(comp) > 1)) + '])'

    def _repr_latex_(self):
        return '$p(' + ' ∪ '.join(('\\{' + ', '.join(map(str, comp)) + '\\}' for comp in self.components())) + ')$'
