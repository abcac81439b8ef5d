"""Reference definitions for poly: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import dataclasses
import functools
import itertools

class Poly:

    def __init__(self, *args: int):
        end = len(args)
        while end >= 1 and args[end - 1] == 0:
            end -= 1
        self.coeffs = tuple(args[:end])

    def deg(self):
        return len(self.coeffs) - 1

    def is_zero(self):
        return len(self.coeffs) == 0

    def evaluate(self, x):
        return sum((c * x ** i for i, c in enumerate(self.coeffs) if c != 0))

    def __add__(self, other):
        if not isinstance(other, (int, Poly)):
            return NotImplemented
        coeffs = [other] if isinstance(other, int) else other.coeffs
        return Poly(*(c + d for c, d in itertools.zip_longest(self.coeffs, coeffs, fillvalue=0)))

    def __sub__(self, other):
        if not isinstance(other, (int, Poly)):
            return NotImplemented
        coeffs = [other] if isinstance(other, int) else other.coeffs
        return Poly(*(c - d for c, d in itertools.zip_longest(self.coeffs, coeffs, fillvalue=0)))

    def __neg__(self):
        return Poly(*(-c for c in self.coeffs))

    def __mul__(self, other):
        if isinstance(other, int):
            return Poly(*(c * other for c in self.coeffs))
        elif isinstance(other, Poly):
            result = [0] * (len(self.coeffs) + len(other.coeffs))
            for (i, c), (j, d) in itertools.product(enumerate(self.coeffs), enumerate(other.coeffs)):
                result[i + j] += c * d
            return Poly(*result)
        return NotImplemented

    def __pow__(self, n):
        if n < 0:
            raise ValueError()
        if n == 0:
            return Poly(1)
        if n == 1:
            return self
        sqrt = self ** (n // 2)
        return sqrt * sqrt if n % 2 == 0 else sqrt * sqrt * self

    def __divmod__(n, d):
        assert not all((c == 0 for c in d.coeffs))
        q, r = (Poly(), n)
        while r != () and len(r.coeffs) >= len(d.coeffs):
            t, remainder = divmod(r.coeffs[-1], d.coeffs[-1])
            if remainder != 0:
                raise ValueError()
            t_deg = len(r.coeffs) - len(d.coeffs)
            tt = Poly(*(0,) * t_deg + (t,))
            q, r = (q + tt, r - d * tt)
        return (q, r)

    def __truediv__(n, d):
        quo, rem = divmod(n, d)
        if not rem.is_zero():
            raise ValueError()
        return quo

    @staticmethod
    def cyclotomic(n):
        if n <= 0:
            raise ValueError()
        poly = Poly(-1, *[0] * (n - 1), 1)
        for d in (d for d in range(1, n) if n % d == 0):
            poly, rem = divmod(poly, Poly.cyclotomic(d))
            assert rem.is_zero()
        return poly

    @staticmethod
    def chebyshevT(n):
        if n < 0:
            raise ValueError()
        if n == 0:
            return Poly(1)
        if n == 1:
            return Poly(0, 1)
        return Poly(0, 2) * Poly.chebyshevT(n - 1) - Poly.chebyshevT(n - 2)

    @staticmethod
    def minpolycos(n):
        s = n // 2
        poly = 2 * (Poly.chebyshevT(s + 1) - Poly.chebyshevT(s if n % 2 == 1 else s - 1))
        for d in (d for d in range(1, n) if n % d == 0):
            poly /= Poly.minpolycos(d).evaluate(x=Poly(0, 2))
        assert all((c % 2 ** i == 0 for i, c in enumerate(poly.coeffs)))
        return Poly(*(c // 2 ** i for i, c in enumerate(poly.coeffs)))


# display
class Poly:

    def __repr__(self):
        if len(self.coeffs) == 0:
            return "Poly('0')"
        parts = []
        for i, c in reversed(list(enumerate(self.coeffs))):
            if c == 0:
                continue
            sign = ' + ' if c > 0 and parts else ' - ' if c < 0 and parts else '' if c > 0 else '-'
            term = '' if i == 0 else 'x' if i == 1 else f'x^{i}'
            coeff = f'{abs(c)}' if i == 0 and term == '' else '' if abs(c) == 1 else f'{abs(c)}'
            parts += [sign + coeff + term]
        return f"Poly('{''.join(parts)}')"
