"""Reference definitions for matrix: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import dataclasses
from typing import Callable

class Matrix:

    def __post_init__(self):
        if not (self.nrows >= 0 and self.ncols >= 0):
            raise ValueError()
        if not self.nrows * self.ncols == len(self.data):
            raise ValueError()
        if not isinstance(self.data, tuple):
            raise ValueError()

    def indices(self):
        return ((i, j) for i in range(self.nrows) for j in range(self.ncols))

    @classmethod
    def from_rows(cls, rows):
        nrows = len(rows)
        ncols = len(rows[0])
        assert all((len(row) == ncols for row in rows))
        return cls(nrows, ncols, tuple((x for row in rows for x in row)))

    @classmethod
    def identity(cls, size):
        return cls(size, size, tuple((1 if i == j else 0 for i in range(size) for j in range(size))))

    @classmethod
    def zero(cls, nrows, ncols):
        return cls(nrows, ncols, tuple((0 for _ in range(nrows * ncols))))

    @classmethod
    def row_vector(cls, elems):
        return cls(1, len(elems), tuple(elems))

    @classmethod
    def col_vector(cls, elems):
        return cls(len(elems), 1, tuple(elems))

    @classmethod
    def col_coord_vector(cls, n, i):
        return cls(n, 1, tuple((1 if i == j else 0 for j in range(n))))

    @classmethod
    def scalar(cls, size, scalar):
        return cls(size, size, tuple((scalar if i == j else 0 for i in range(size) for j in range(size))))

    def row(self, row):
        if not 0 <= row < self.nrows:
            raise IndexError()
        return Matrix(1, self.ncols, tuple((self[row, j] for j in range(self.ncols))))

    def column(self, col):
        if not 0 <= col < self.ncols:
            raise IndexError()
        return Matrix(self.nrows, 1, tuple((self[j, col] for j in range(self.nrows))))

    def rows(self):
        return [list(self.data[self.ncols * i:self.ncols * (i + 1)]) for i in range(self.nrows)]

    def _checkbounds(self, i, j):
        if not (0 <= i < self.nrows and 0 <= j < self.ncols):
            raise IndexError()

    def __getitem__(self, key):
        if not isinstance(key, tuple) or len(key) != 2:
            raise KeyError()
        i, j = key
        self._checkbounds(i, j)
        return self.data[self.ncols * i + j]

    def __mul__(self, other):
        if isinstance(other, int):
            return Matrix(self.nrows, self.ncols, tuple((x * other for x in self.data)))
        if isinstance(other, Matrix):
            if self.ncols != other.nrows:
                raise ValueError()
            newdata = [0] * (self.nrows * other.ncols)
            for i in range(self.nrows):
                for j in range(other.ncols):
                    for k in range(self.ncols):
                        newdata[other.ncols * i + j] += self.data[self.ncols * i + k] * other.data[other.ncols * k + j]
            return Matrix(self.nrows, other.ncols, tuple(newdata))
        return NotImplemented

    def __pow__(self, exp):
        if self.nrows != self.ncols:
            raise ValueError()
        if exp < 0:
            raise NotImplementedError()
        acc = Matrix.identity(self.nrows)
        pow2 = self
        while exp:
            if exp % 2 == 1:
                acc = acc * pow2
            exp //= 2
            pow2 = pow2 * pow2
        return acc

    def __rmul__(self, other):
        if isinstance(other, int):
            return Matrix(self.nrows, self.ncols, tuple((x * other for x in self.data)))
        return NotImplemented

    def __sub__(self, other):
        if isinstance(other, Matrix):
            if (self.nrows, self.ncols) != (other.nrows, other.ncols):
                raise ValueError()
            return Matrix(self.nrows, self.ncols, tuple((a - b for a, b in zip(self.data, other.data))))
        return NotImplemented

    def trace(self):
        if self.nrows != self.ncols:
            raise ValueError()
        return sum((self.data[self.ncols * i + i] for i in range(self.nrows)))

    def is_square(self):
        return self.nrows == self.ncols

    def is_symmetric(self):
        return self.is_square() and all((self[i, j] == self[j, i] for i in range(self.nrows) for j in range(i)))

    def transpose(self):
        return Matrix(self.ncols, self.nrows, tuple((self[j, i] for i in range(self.ncols) for j in range(self.nrows))))

    def is_integral(self):
        return all((isinstance(c, int) for c in self.data))

    def entries(self):
        return iter(self.data)

    def map(self, f):
        return Matrix(self.nrows, self.ncols, tuple((f(c) for c in self.data)))


# display
class Matrix:

    def __repr__(self):
        if self.nrows == 0 or self.ncols == 0:
            return f'Matrix({self.nrows}, {self.ncols}, [])'
        if self.nrows == 1:
            return 'Matrix([[' + ', '.join((repr(c) for c in self.data)) + ']])'
        if self.ncols == 1:
            return 'Matrix([' + ', '.join((f'[{c!r}]' for c in self.data)) + '])'
        return '\n'.join(['Matrix([', *('    [' + ', '.join((repr(self.data[self.ncols * i + j]) for j in range(self.ncols))) + '],' for i in range(self.nrows)), '])'])

    def _repr_latex_(self):

        def get_repr(x):
            return x._repr_latex_() if hasattr(x, '_repr_latex_') else repr(x)
        return ''.join(['\\begin{pmatrix}', ' \\\\ '.join((' & '.join((get_repr(self.data[i * self.ncols + j]) for j in range(self.ncols))) for i in range(self.nrows))), '\\end{pmatrix}'])

    def __str__(self):
        rows = ['[' + ', '.join((str(c) for c in row)) + ']' for row in self.rows()]
        return f'M[{', '.join(rows)}]'
