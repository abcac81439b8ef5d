"""Reference definitions for tl: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import dataclasses
import functools
import math
from typing import Iterable, Sequence
from .lpoly import LPoly
from .matrix import Matrix

def is_crossingless_matching(seq):
    if not all((0 <= seq[i] < len(seq) and seq[i] != i and (seq[seq[i]] == i) for i in range(len(seq)))):
        return False
    stack = []
    for i in range(len(seq)):
        if i < seq[i]:
            stack.append(seq[i])
        elif stack.pop() != i:
            return False
    return True

def is_crossingless_matching(seq):
    # another way: in a matching, the last opened is seq[i] exactly if its partner is i
    if not all((0 <= seq[i] < len(seq) and seq[i] != i and (seq[seq[i]] == i) for i in range(len(seq)))):
        return False
    stack = []
    for i in range(len(seq)):
        if i < seq[i]:
            stack.append(i)
        elif stack.pop() != seq[i]:
            return False
    return True

def generate_sequences(n):
    # another way: each subtree as a tuple of its own
    if n < 0 or n % 2 == 1:
        raise ValueError()

    def place_trees(i, size):
        if size == 0:
            yield ()
        for left_size in range(size):
            l, r = (i, i + 1 + 2 * left_size)
            for left in place_trees(l + 1, left_size):
                for right in place_trees(r + 1, size - left_size - 1):
                    yield (r, *left, l, *right)
    yield from place_trees(0, n // 2)

def generate_sequences(n):
    if n < 0 or n % 2 == 1:
        raise ValueError()
    seq = [-1] * n

    def place_trees(i, size):
        if size == 0:
            yield
        for left_size in range(size):
            l, r = (i, i + 1 + 2 * left_size)
            seq[l], seq[r] = (r, l)
            for _ in place_trees(l + 1, left_size):
                for _ in place_trees(r + 1, size - left_size - 1):
                    yield
    for _ in place_trees(0, n // 2):
        yield tuple(seq)

def compose(upper, lower, mid):
    U, L = (len(upper), len(lower))
    assert 0 <= mid <= L and 0 <= mid <= U
    top, bot = (U - mid, L - mid)
    result = [-1] * (bot + top)
    visited = [False] * mid
    for i in range(len(result)):
        v, side = (i, 0) if i < bot else (i - bot + mid, 1)
        while True:
            if side == 0:
                v = lower[v]
                if v < bot:
                    result[i] = v
                    break
                else:
                    v = L - v - 1
                    visited[v] = True
                    side = 1 - side
            else:
                v = upper[v]
                if v >= mid:
                    result[i] = v - mid + bot
                    break
                else:
                    visited[v] = True
                    v = L - v - 1
                    side = 1 - side
    assert is_crossingless_matching(result)
    bubbles = 0
    for i in range(mid):
        if visited[i]:
            continue
        v = i
        while True:
            visited[v] = True
            visited[upper[v]] = True
            v = L - lower[L - upper[v] - 1] - 1
            if visited[v]:
                break
        bubbles += 1
    return (tuple(result), bubbles)

def trace_count(seq):
    nested_cups = list(range(len(seq)))[::-1]
    result, bubbles = compose(seq, nested_cups, len(seq))
    assert result == ()
    return bubbles

def insert(outer, inner, i):
    assert 0 <= i <= len(outer)
    return (*(x if x < i else x + len(inner) for x in outer[:i]), *(x + i for x in inner), *(x if x < i else x + len(inner) for x in outer[i:]))

class TLDiag:

    def __init__(self, top, bot, seq):
        assert 0 <= top
        assert 0 <= bot
        assert top + bot == len(seq)
        assert is_crossingless_matching(seq)
        self.top = top
        self.bot = bot
        self.seq = tuple(seq)

    @classmethod
    def id(cls, n):
        return TLDiag(n, n, tuple((2 * n - i - 1 for i in range(2 * n))))

    def __mul__(upper, lower):
        if isinstance(lower, TLDiag):
            if upper.bot != lower.top:
                raise ValueError()
            seq, bubbles = compose(upper.seq, lower.seq, upper.bot)
            return (TLDiag(upper.top, lower.bot, seq), bubbles)
        return NotImplemented

    def __matmul__(self, other):
        if isinstance(other, TLDiag):
            return TLDiag(self.top + other.top, self.bot + other.bot, insert(self.seq, other.seq, self.bot))
        return NotImplemented

    def flip(self):
        return TLDiag(self.bot, self.top, tuple((self.top + self.bot - 1 - i for i in reversed(self.seq))))

def through_strands(diag):
    return sum((1 for i in range(diag.bot) if diag.seq[i] >= diag.bot))

def tl_basis(top, bot):
    assert 0 <= top and 0 <= bot and ((top + bot) % 2 == 0)
    return [TLDiag(top, bot, seq) for seq in generate_sequences(top + bot)]

def tl_tableaux_basis(top, strands):
    assert 0 <= strands <= top and top % 2 == strands % 2
    return [diag for diag in tl_basis(top, strands) if through_strands(diag) == strands]

def cell_dimension(n, r):
    assert 0 <= n and 0 <= r and (0 <= n - 2 * r)
    return math.comb(n, r) - (0 if r - 1 < 0 else math.comb(n, r - 1))

def cell_basis(n, r):
    assert 0 <= n and 0 <= r
    if 0 > n - 2 * r:
        return []
    if r == 0 or n == 0:
        return [TLDiag.id(n)]
    bar = TLDiag.id(1)
    return sorted([*[diag @ bar for diag in cell_basis(n - 1, r)], *[TLDiag(n, n - 2 * r, diag.seq) for diag in cell_basis(n - 1, r - 1)]])

class TLExtDiag:

    def __init__(self, top, bot, seq, bubbles):
        assert 0 <= top
        assert 0 <= bot
        assert top + bot == len(seq)
        assert is_crossingless_matching(seq)
        self.top = top
        self.bot = bot
        self.seq = tuple(seq)
        self.bubbles = bubbles

    @staticmethod
    def id(n):
        return TLExtDiag(n, n, tuple((2 * n - i - 1 for i in range(2 * n))), 0)

    @staticmethod
    def e(i, n):
        assert n >= 0
        assert 0 <= i < n - 1
        seq = [2 * n - i - 1 for i in range(2 * n)]
        seq[i], seq[i + 1] = (i + 1, i)
        seq[2 * n - i - 1], seq[2 * n - i - 2] = (2 * n - i - 2, 2 * n - i - 1)
        return TLExtDiag(n, n, tuple(seq), 0)

    def add_bubbles(self, bubbles):
        return TLExtDiag(self.top, self.bot, self.seq, self.bubbles + bubbles)

    def split_bubbles(self):
        return (TLExtDiag(self.top, self.bot, self.seq, 0), self.bubbles)

    def __mul__(self, other):
        if isinstance(other, TLExtDiag):
            if self.bot != other.top:
                raise ValueError()
            seq, bubbles = compose(self.seq, other.seq, self.bot)
            return TLExtDiag(self.top, other.bot, seq, self.bubbles + other.bubbles + bubbles)
        return NotImplemented

    def __matmul__(self, other):
        if isinstance(other, TLExtDiag):
            return TLExtDiag(self.top + other.top, self.bot + other.bot, insert(self.seq, other.seq, self.bot), self.bubbles + other.bubbles)
        return NotImplemented

class TLMor:

    def __init__(self, top, bot, terms):
        for diag, coeff in terms.items():
            if diag.top != top or diag.bot != bot:
                raise ValueError()
        self.top = top
        self.bot = bot
        self.terms = {diag: coeff for diag, coeff in sorted(terms.items()) if not coeff.is_zero()}

    @classmethod
    def id(cls, n):
        assert n >= 0
        return cls(n, n, {TLDiag.id(n): LPoly(0, (1,))})

    @classmethod
    def e(cls, i, n):
        assert n >= 0
        assert 0 <= i < n - 1
        seq = [2 * n - i - 1 for i in range(2 * n)]
        seq[i], seq[i + 1] = (i + 1, i)
        seq[2 * n - i - 1], seq[2 * n - i - 2] = (2 * n - i - 2, 2 * n - i - 1)
        return TLMor(n, n, {TLDiag(n, n, seq): LPoly(0, (1,))})

    @classmethod
    def basis(cls, top, bot):
        return [TLMor(top, bot, {diag: LPoly(0, (1,))}) for diag in tl_basis(top, bot)]

    @classmethod
    def from_tldiag(cls, diag):
        return TLMor(diag.top, diag.bot, {diag: LPoly(0, (1,))})

    def support(self):
        return self.terms.keys()

    def pairs(self):
        return [(diag, coeff) for diag, coeff in self.terms.items()]

    def coefficient(self, diag):
        if self.top != diag.top or self.bot != diag.bot:
            raise ValueError()
        return self.terms.get(diag, LPoly(0, ()))

    def is_zero(self):
        return len(self.terms) == 0

    def quotient(self, strands):
        return TLMor(self.top, self.bot, {diag: coeff for diag, coeff in self.terms.items() if through_strands(diag) >= strands})

    def trace(self):
        result = LPoly(0, ())
        for diag, coeff in self.terms.items():
            result += coeff * Q2 ** trace_count(diag.seq)
        return result

    def __mul__(upper, lower):
        if isinstance(lower, (int, LPoly)):
            return TLMor(upper.top, upper.bot, {diag: coeff * lower for diag, coeff in upper.terms.items()})
        if isinstance(lower, TLDiag):
            lower = TLMor(lower.top, lower.bot, {lower: LPoly(0, (1,))})
        if not isinstance(lower, TLMor):
            return NotImplemented
        if upper.bot != lower.top:
            raise ValueError()
        result = {}
        for up, c_up in upper.terms.items():
            for low, c_low in lower.terms.items():
                diag, bubbles = compose(up.seq, low.seq, upper.bot)
                tldiag = TLDiag(upper.top, lower.bot, diag)
                if tldiag not in result:
                    result[tldiag] = LPoly(0, ())
                result[tldiag] += Q2 ** bubbles * c_up * c_low
        return TLMor(upper.top, lower.bot, result)

    def __add__(self, other):
        if isinstance(other, int):
            other = LPoly(0, (other,))
        if isinstance(other, LPoly):
            if self.bot == self.top:
                return self + other * TLMor.id(self.bot)
            else:
                raise ValueError()
        if isinstance(other, TLMor):
            if self.top != other.top or self.bot != other.bot:
                raise ValueError()
            terms = {**self.terms}
            for diag, coeff in other.terms.items():
                if diag not in terms:
                    terms[diag] = coeff
                else:
                    terms[diag] += coeff
            return TLMor(self.top, self.bot, terms)
        return NotImplemented

    def flip(self, twist_v):
        vinv = LPoly(-1, (1,))
        return TLMor(self.bot, self.top, {diag.flip(): LPoly.coerce(coeff.evaluate(vinv)) if twist_v else coeff for diag, coeff in self.terms.items()})

    def __neg__(self):
        return TLMor(self.top, self.bot, {diag: -coeff for diag, coeff in self.terms.items()})

    def __sub__(self, other):
        return self + -other

    def __rmul__(self, other):
        if isinstance(other, (int, LPoly)):
            return self * other
        return NotImplemented

    def __pow__(self, exp):
        if self.top != self.bot:
            raise ValueError()
        if exp < 0:
            raise ValueError()
        acc = TLMor.id(self.top)
        pow2 = self
        while exp:
            if exp % 2 == 1:
                acc = acc * pow2
            exp //= 2
            pow2 = pow2 * pow2
        return acc

class TLCell:

    def __post_init__(self):
        assert 0 <= self.n and 0 <= self.r and (0 <= self.n - 2 * self.r)

    def dim(self):
        return cell_dimension(self.n, self.r)

    def basis_diagrams(self):
        return cell_basis(self.n, self.r)

    def project_vector(self, mor):
        assert (mor.top, mor.bot) == (self.n, self.n - 2 * self.r)
        return mor.quotient(self.n - 2 * self.r)

    def project_leftmult_matrix(self, mor):
        dim = self.dim()
        rows = [[None] * dim for _ in range(dim)]
        for j, vj in enumerate(self.basis_diagrams()):
            result = (mor * vj).quotient(self.n - 2 * self.r)
            for i, vi in enumerate(self.basis_diagrams()):
                rows[i][j] = result.terms.get(vi, LPoly(0, ()))
        return Matrix.from_rows(rows)

    def trace_scalar(self):
        return LPoly.quantum_integer(self.n - 2 * self.r + 1)

class JonesRep:

    def __init__(self, n):
        assert n >= 0
        self.n = n
        self.cells = [TLCell(n, r) for r in range(n // 2 + 1)]


# display
class TLDiag:

    def _repr_html_(self):
        return draw_svg(self.seq, self.bot)

class TLMor:

    def _repr_html_(self):
        style = ''.join((line + ';' for line in ['display: flex', 'flex-direction: row', 'flex-wrap: wrap', 'justify-content: flex-start', 'align-items: center']))
        return f'<p style="{style}">' + '<span style="padding: 0 0.3em">$+$</span>'.join(('$(' + coeff.fmt('latex') + ')$' + draw_svg(diag.seq, diag.bot) for diag, coeff in self.terms.items())) + '</p>'

def draw_svg(seq, bot):
    import svg
    assert bot <= len(seq)
    top = len(seq) - bot
    M = 10
    W = 15
    C = 25
    width = 2 * M + (max(bot, top) - 1) * W
    height = 35

    def numx(v):
        return v if v < bot else len(seq) - v - 1

    def pos(v):
        return (width / 2 + (0.5 + numx(v) - [top, bot][v < bot] / 2) * W, height if v < bot else 0)
    drawn = [False] * len(seq)
    path = []
    for i in range(len(seq)):
        if drawn[i]:
            continue
        sx, sy = pos(i)
        tx, ty = pos(seq[i])
        dy = -C if i < bot else C
        if i < bot and seq[i] < bot or (i >= bot and seq[i] >= bot):
            dist = 1 / (1 + math.exp(-abs(i - seq[i]) / 4))
            path += [svg.M(sx, sy), svg.C(sx, sy + dy * dist, tx, ty + dy * dist, tx, ty)]
        else:
            path += [svg.M(sx, sy), svg.C(sx, sy + dy, tx, ty - dy, tx, ty)]
        drawn[i] = drawn[seq[i]] = True
    return svg.SVG(width=width, height=height, elements=[svg.Path(d=path, stroke='black', stroke_width=1, fill='none')]).as_str()
