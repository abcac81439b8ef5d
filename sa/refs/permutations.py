"""Reference definitions for permutations: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import collections
import dataclasses
import functools
import itertools
import operator
from typing import Iterable, Sequence

def is_permutation(word):
    if len(word) == 0:
        return True
    if min(word) != 0 or max(word) != len(word) - 1:
        return False
    mask = functools.reduce(operator.or_, (1 << x for x in word), 0)
    return mask == 2 ** len(word) - 1

def identity(n):
    return tuple(range(n))

def is_identity(perm):
    return all((perm[i] == i for i in range(len(perm))))

def transposition(n, i, j):
    assert n >= 0
    assert 0 <= i < n and 0 <= j < n
    perm = list(range(n))
    perm[i], perm[j] = (perm[j], perm[i])
    return tuple(perm)

def longest_element(n):
    return tuple((n - i - 1 for i in range(n)))

def is_longest_element(perm):
    return all((perm[i] == len(perm) - i - 1 for i in range(len(perm))))

def disjoint_cycles(perm):
    cycles = []
    visited = [False] * len(perm)
    for i in range(len(perm)):
        if visited[i]:
            continue
        cycle = []
        pos = i
        while True:
            cycle.append(pos)
            visited[pos] = True
            pos = perm[pos]
            if pos == i:
                break
        cycles.append(tuple(cycle))
    return cycles

def cycle_type(perm):
    lengths = []
    visited = [False] * len(perm)
    for i in range(len(perm)):
        if visited[i]:
            continue
        length = 0
        pos = i
        while True:
            length += 1
            visited[pos] = True
            pos = perm[pos]
            if pos == i:
                break
        lengths += [length]
    return tuple(sorted(lengths, reverse=True))

def parity(perm):
    return (len(cycle_type(perm)) + len(perm)) % 2

def length(perm):
    return sum((1 for i in range(len(perm)) for j in range(i + 1, len(perm)) if perm[i] > perm[j]))

def inverse(perm):
    inv = [0] * len(perm)
    for i, pi in enumerate(perm):
        inv[pi] = i
    return tuple(inv)

def inverse(perm):
    inv = list(perm)
    for i, pi in enumerate(perm):
        inv[pi] = i
    return tuple(inv)

def compose(x, y):
    if len(x) != len(y):
        raise ValueError()
    return tuple((x[j] for j in y))

def right_descent_set(perm):
    return {i for i in range(len(perm) - 1) if perm[i] > perm[i + 1]}

def is_right_descent(perm, i):
    assert 0 <= i < len(perm) - 1
    return perm[i] > perm[i + 1]

def left_descent_set(perm):
    return right_descent_set(inverse(perm))

def is_left_descent(perm, i):
    assert 0 <= i < len(perm) - 1
    return perm.index(i) > perm.index(i + 1)

def shortlex(perm):
    inv_perm = list(inverse(perm))
    word = []
    i = 0
    while i < len(inv_perm) - 1:
        if inv_perm[i] > inv_perm[i + 1]:
            word.append(i)
            inv_perm[i], inv_perm[i + 1] = (inv_perm[i + 1], inv_perm[i])
            i = max(i - 1, 0)
        else:
            i += 1
    assert all((i == j for i, j in enumerate(inv_perm)))
    return tuple(word)

def from_cox(n, seq):
    assert all((0 <= s < n - 1 for s in seq))
    word = list(range(n))
    for s in seq:
        word[s], word[s + 1] = (word[s + 1], word[s])
    return tuple(word)

def is_descending_cycles(perm):
    return all((a >= b for cycle in disjoint_cycles(perm) for a, b in zip(cycle[1:], cycle[2:])))

def is_parallel_descending_cycles(perm):
    if not is_descending_cycles(perm):
        return False
    marked = [False] * len(perm)
    for cycle in disjoint_cycles(perm):
        cycle = tuple(sorted(cycle))
        for i in range(len(cycle) - 1):
            if any((marked[j] for j in range(cycle[i] + 1, cycle[i + 1]))):
                return False
            marked[cycle[i]] = marked[cycle[i + 1]] = True
    return True

class SymmetricGroup:

    def __post_init__(self):
        assert self.n >= 0

    def id(self):
        return Permutation(identity(self.n))

    def longest_element(self):
        return Permutation(longest_element(self.n))

    def cox_gens(self):
        return tuple((Permutation(transposition(self.n, i, i + 1)) for i in range(self.n - 1)))

    def reflections(self):
        return [Permutation(transposition(self.n, i, j)) for i in range(self.n - 1) for j in range(i + 1, self.n)]

    def from_cox(self, seq):
        return Permutation(from_cox(self.n, seq))

    def from_cycle(self, cycle):
        assert all((0 <= x < self.n for x in cycle))
        assert len(set(cycle)) == len(cycle)
        word = list(range(self.n))
        for i in range(len(cycle)):
            word[cycle[i]] = cycle[(i + 1) % len(cycle)]
        return Permutation(tuple(word))

    def from_cycle(self, cycle):
        assert all((0 <= x < self.n for x in cycle))
        assert len(set(cycle)) == len(cycle)
        word = list(range(self.n))
        for i in range(len(cycle)):
            word[cycle[i - 1]] = cycle[i]
        return Permutation(tuple(word))

    def from_cycles(self, cycles):
        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id())

    def elements(self):
        return (Permutation(perm) for perm in itertools.permutations(range(self.n)))

class Permutation:

    def __post_init__(self):
        assert is_permutation(self.word)

    def group(self):
        return SymmetricGroup(len(self.word))

    def length(self):
        return length(self.word)

    def disjoint_cycles(self):
        return disjoint_cycles(self.word)

    def cycle_type(self):
        return cycle_type(self.word)

    def shortlex(self):
        return shortlex(self.word)

    def artin_word(self):
        return [(i, 1) for i in self.shortlex()]

    def is_right_descent(self, s):
        return is_right_descent(self.word, s)

    def right_descent_set(self):
        return right_descent_set(self.word)

    def is_left_descent(self, s):
        return is_left_descent(self.word, s)

    def left_descent_set(self):
        return left_descent_set(self.word)

    def inv(self):
        return Permutation(inverse(self.word))

    def __mul__(self, other):
        if isinstance(other, Permutation):
            if len(self.word) != len(other.word):
                raise ValueError()
            return Permutation(compose(self.word, other.word))
        return NotImplemented

    def __mul__(self, other):
        if isinstance(other, Permutation):
            return Permutation(compose(self.word, other.word))
        return NotImplemented


# display
class Permutation:

    def _repr_latex_(self):
        if is_identity(self.word):
            return '$\\mathrm{id}$'
        return '$' + ' '.join((f's_{{{i}}}' for i in shortlex(self.word))) + '$'
