"""Reference definitions for lpoly: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import dataclasses
import itertools
from typing import Callable, Literal, Sequence
from .poly import Poly

class LPoly:

    def __init__(self, val, coeffs):
        l, r = (0, len(coeffs))
        while l < r and coeffs[l] == 0:
            l += 1
            val += 1
        while l < r and coeffs[r - 1] == 0:
            r -= 1
        if l == r:
            self.val = 0
            self.coeffs = ()
        else:
            self.val = val
            self.coeffs = tuple(coeffs[l:r])

    def is_zero(self):
        return len(self.coeffs) == 0

    def is_unit(self):
        return len(self.coeffs) == 1 and self.coeffs[0] in (1, -1)

    def evaluate(self, x):
        return sum((c * x ** (i + self.val) for i, c in enumerate(self.coeffs) if c != 0))

    def valuation(self):
        return self.val

    def degree(self):
        return self.val + len(self.coeffs) - 1

    def __add__(self, other):
        if isinstance(other, int):
            return self + LPoly(0, (other,))
        if isinstance(other, LPoly):
            minval = min(self.val, other.val)
            maxpow = max(self.val + len(self.coeffs), other.val + len(other.coeffs))
            coeffs = [0] * (maxpow - minval)
            for i, c in enumerate(self.coeffs):
                coeffs[self.val + i - minval] += c
            for i, c in enumerate(other.coeffs):
                coeffs[other.val + i - minval] += c
            return LPoly(minval, coeffs)
        return NotImplemented

    def __sub__(self, other):
        return self + -other

    def __rsub__(self, other):
        return -self + other

    def __neg__(self):
        return LPoly(self.val, tuple((-x for x in self.coeffs)))

    def __mul__(self, other):
        if isinstance(other, int):
            return LPoly(self.val, tuple((c * other for c in self.coeffs)))
        elif isinstance(other, LPoly):
            result = [0] * (len(self.coeffs) + len(other.coeffs))
            for (i, c), (j, d) in itertools.product(enumerate(self.coeffs), enumerate(other.coeffs)):
                result[i + j] += c * d
            return LPoly(self.val + other.val, result)
        return NotImplemented

    def __pow__(self, n):
        if n < 0:
            if self.coeffs == (1,) or self.coeffs == (-1,):
                return LPoly(-self.val, self.coeffs) ** (-n)
            raise ValueError()
        if n == 0:
            return LPoly(0, (1,))
        if n == 1:
            return self
        sqrt = self ** (n // 2)
        return sqrt * sqrt if n % 2 == 0 else sqrt * sqrt * self

    def __truediv__(self, other):
        return LPoly(self.val - other.val, (Poly(*self.coeffs) / Poly(*other.coeffs)).coeffs)

    def map(self, f):
        return LPoly(self.val, [f(c) for c in self.coeffs])

    @staticmethod
    def coerce(other):
        if isinstance(other, int):
            return LPoly(0, (other,))
        if isinstance(other, LPoly):
            return other
        raise ValueError()

    @staticmethod
    def quantum_integer(n):
        if abs(n) <= 1:
            return LPoly(0, (n,))
        sign = 1 if n >= 1 else -1
        return LPoly(-abs(n) + 1, [sign if i % 2 == 0 else 0 for i in range(2 * abs(n) - 1)])


# display
class LPoly:

    def __repr__(self):
        return f"LPoly('{self.fmt()}')"

    def fmt(self, mode):
        if len(self.coeffs) == 0:
            return '0'
        power_fmt = 'v^{}' if mode is None else 'v^{{{}}}'
        parts: list[str] = []
        for i, c in reversed(list(enumerate(self.coeffs, self.val))):
            if c == 0:
                continue
            sign = ' + ' if c > 0 and parts else ' - ' if c < 0 and parts else '' if c > 0 else '-'
            term = '' if i == 0 else 'v' if i == 1 else power_fmt.format(i)
            coeff = f'{abs(c)}' if i == 0 and term == '' else '' if abs(c) == 1 else f'{abs(c)}'
            parts += [sign + coeff + term]
        return ''.join(parts)

    def _repr_latex_(self):
        return self.fmt(mode='latex')
