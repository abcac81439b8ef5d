"""Reference definitions for polymat: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
from typing import Sequence, Tuple
import numpy as np
import numpy.typing as npt
from .lpoly import LPoly
from .matrix import Matrix

def eye(n):
    return np.identity(n, dtype=int)[:, :, None]

def trim(A):
    last = A.shape[-1]
    while last > 0 and (not np.any(A[..., last - 1])):
        last -= 1
    return A[..., :last] if last < A.shape[-1] else A

def trim_left(A):
    start, last = (0, A.shape[-1])
    while start < last and (not np.any(A[..., start])):
        start += 1
    return (start, A[..., start:] if start != 0 else A)

def mul(A, B, quotdeg):
    assert len(A.shape) >= 3 and len(B.shape) >= 3
    *alpha, I, J, D = A.shape
    *beta, J2, K, E = B.shape
    assert J == J2
    assert quotdeg is None or quotdeg >= 0
    P = D + E - 1 if quotdeg is None else quotdeg
    prefix = np.broadcast_shapes(alpha, beta)
    parts = np.zeros((*prefix, I, K, P), dtype=A.dtype)
    for d in range(P):
        parts[..., d] = sum((A[..., i] @ B[..., d - i] for i in range(d + 1) if i < D and d - i < E))
    return parts

def pack(As):
    assert len(As) >= 1
    assert all((len(A.shape) == 3 for A in As))
    I, J, _ = As[0].shape
    assert all((A.shape[:2] == (I, J) for A in As))
    As = [trim(A) for A in As]
    D = max((A.shape[-1] for A in As))
    result = np.zeros((len(As), I, J, D), dtype=As[0].dtype)
    for i, A in enumerate(As):
        result[i, :, :, :A.shape[-1]] = A
    return result

def zeropad(A, D):
    assert len(A.shape) >= 3 and A.shape[-1] <= D
    result = np.zeros((*A.shape[:-1], D), dtype=A.dtype)
    result[..., :A.shape[-1]] = A
    return result

def concatenate(As):
    if len(As) == 0:
        return np.zeros((0, 1, 1, 1), dtype=int)
    assert all((len(A.shape) == 4 for A in As))
    _, I, J, _ = As[0].shape
    assert all((A.shape[1:3] == (I, J) for A in As))
    As = [trim(A) for A in As]
    D = max((A.shape[-1] for A in As))
    return np.concatenate([zeropad(A, D) for A in As], axis=0)

def burau_generator_v2(n, s):
    assert n >= 1
    assert 0 <= s < n - 1
    return np.array([[[0, -1, 0] if i == s and abs(j - s) == 1 else [0, 0, -1] if i == s == j else [1, 0, 0] if i == j else [0, 0, 0] for j in range(n - 1)] for i in range(n - 1)], dtype=int)

def to_matrix(A):
    assert len(A.shape) == 3
    I, J, _ = A.shape
    return Matrix.from_rows([[LPoly(0, A[i, j, :].tolist()) for j in range(J)] for i in range(I)])

def from_matrix(mat, proj, dtype):
    if all((isinstance(x, int) for x in mat.data)):
        return np.array(mat.data, dtype=dtype).reshape(mat.nrows, mat.ncols, 1)
    if all((isinstance(x, LPoly) for x in mat.data)):
        if all((x.is_zero() for x in mat.data)):
            return np.zeros((mat.nrows, mat.ncols, 1), dtype=dtype)
        minval = min((x.valuation() for x in mat.data if not x.is_zero()))
        if minval < 0:
            if proj:
                mat = Matrix(mat.nrows, mat.ncols, tuple((x * LPoly(-minval, (1,)) for x in mat.data)))
                minval = min((x.valuation() for x in mat.data if not x.is_zero()))
            else:
                raise ValueError()
        maxdeg = max((x.degree() for x in mat.data if not x.is_zero()))
        if minval < 0:
            raise ValueError()
        A = np.zeros((mat.nrows, mat.ncols, maxdeg + 1), dtype=dtype)
        for i in range(mat.nrows):
            for j in range(mat.ncols):
                x = mat[i, j]
                A[i, j, x.val:x.val + len(x.coeffs)] = x.coeffs
        return A
    return from_matrix(mat.map(LPoly.coerce), proj=proj, dtype=dtype)

def projectivise(A):
    assert len(A.shape) >= 3
    assert np.all(np.any(A, axis=(-3, -2, -1)))
    if np.all(np.any(A[..., 0], axis=(-2, -1))) and np.any(A[..., -1]):
        return A
    starts, ends = proj_starts_ends(A)
    new_width = np.max(ends - starts)
    if len(A.shape) == 3:
        return A[..., starts:ends]
    result = np.zeros((*A.shape[:-1], new_width), dtype=A.dtype)
    for index in np.ndindex(A.shape[:-3]):
        start, end = (starts[index], ends[index])
        result[index][..., :end - start] = A[index][..., start:end]
    return result

def degmax(A):
    assert len(A.shape) >= 3
    return A.shape[-1] - 1 - np.argmax(np.any(A[..., ::-1], axis=(-3, -2)), axis=-1)

def valmin(A):
    assert len(A.shape) >= 3
    return np.argmax(np.any(A, axis=(-3, -2)), axis=-1)

def nz_terms(A):
    assert len(A.shape) >= 3
    return np.count_nonzero(A, axis=(-3, -2, -1))

def projrank(A, terms):
    assert terms >= 0
    assert len(A.shape) >= 3 and A.shape[-1] >= 1
    assert np.equal(valmin(A), 0).all()
    return sum((np.linalg.matrix_rank(A[..., i]) for i in range(terms) if i < A.shape[-1]))

def projrank(A, terms):
    assert terms >= 0
    assert len(A.shape) >= 3 and A.shape[-1] >= 1
    assert np.equal(valmin(A), 0).all()
    return sum((np.linalg.matrix_rank(A[..., i]) for i in range(min(terms, A.shape[-1]))))

def rhogap(A):
    return (degmax(A) - valmin(A)) / 2

def efflen(A):
    return np.where((A == 0).all(axis=(-3, -2, -1)), 0, degmax(A) - valmin(A))

def projlen(A):
    nonzeros = np.any(A, axis=(-3, -2))
    starts = np.argmax(nonzeros, axis=-1)
    ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
    return np.where(nonzeros.any(axis=-1), ends - starts, 0)

def proj_starts_ends(A):
    assert len(A.shape) >= 3
    assert np.all(np.any(A, axis=(-3, -2, -1)))
    nonzeros = np.any(A, axis=(-3, -2))
    starts = np.argmax(nonzeros, axis=-1)
    ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
    return (starts, ends)
