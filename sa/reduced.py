"""Typestate of matrices over canonical terms: reduced mod p?  projective?  possibly with negative powers?

Every term is given a state (reduced, projective, negative), each True, False or None (not known), under the assumption p > 0
(and once more under p = 0, where nothing may be reduced).  Operations of the representations have contracts; what each of
them returns is checked against its own."""
from __future__ import annotations
from .vn import c, TRUE, FALSE

RP, R, RAW, BOT, TOP = (True, True, False), (True, None, None), (False, False, None), None, (None, None, None)

# what an operation may assume of what it is handed, and what its callers rely on: name -> state returned
CONTRACT = {
    'jonesrep.RepBase.polymat_mul': RP, 'jonesrep.RepBase.polymat_artin_gens_invs': RP, 'jonesrep.RepBase.polymat_id': RP,
    'jonesrep.RepBase._polymat_braid_factor': RP, 'jonesrep.RepBase._polymat_delta_power': RP,
    'jonesrep.RepBase.polymat_evaluate_artin_word': RP, 'jonesrep.RepBase.polymat_evaluate': RP, 'jonesrep.RepBase.polymat_evaluate_braid': RP,
    'jonesrep.RepBase.polymat_evaluate_braids_of_same_length': RP, 'jonesrep.RepBase.polymat_evaluate_braid_integers_of_same_length': RP,
    'jonesrep.RepBase.evaluate_artin_word': (True, None, True), 'jonesrep.RepBase.evaluate': (True, None, True), 'jonesrep.RepBase.id': (True, None, False),
    'jonesrep.RepBase.artin_gens_invs': (True, None, True), 'jonesrep.JonesCellRep.artin_gens_invs': (True, None, True), 'jonesrep.LKBRep.artin_gens_invs': (True, None, True),
    'braidsearch.JonesSummand.mul': RP, 'braidsearch.JonesSummand.id': RP, 'braidsearch.JonesSummand.artin_gens_invs': RP,
    'jonesrep.cell_matrices': (False, None, True), 'jonesrep.cell_matrix': (False, None, True), 'braidsearch.cell_matrices': (False, None, True), 'braidsearch.cell_matrix': (False, None, True),
    'braidsearch.symmetric_table': RP, 'braidsearch.evaluate_braid_factors': RP, 'braidsearch.evaluate_braids_of_same_length': RP,
    'braidsearch.evaluate_prefixes_of_same_length': RP, 'braidsearch.evaluate_braids': RP,
}
CHECKED = [k for k in CONTRACT if k not in ('jonesrep.RepBase.artin_gens_invs', 'jonesrep.RepBase.id') and CONTRACT[k][0]]


def meet(*xs):
    """Both may occur: known only where they agree, bad where one of them is known to be bad."""
    xs = [x for x in xs if x is not BOT]
    if not xs:
        return BOT
    out = []
    for i, bad in enumerate((False, False, True)):
        v = {x[i] for x in xs}
        out.append(bad if bad in v else None if None in v else (not bad))
    return tuple(out)


def is_p(t):
    return t[0] == 'attr' and t[2] == 'p'


class State:
    def __init__(self, p0=False, param=R):
        self.p0, self.param, self.memo = p0, param, {}
        self.zero = []        # reductions met although p = 0
        self.refused = []     # matrices that may have negative powers, packed without being shifted
        self.recs = []

    def truth(self, a):
        """Truth of a condition on the modulus."""
        k = a[0]
        if k in ('eq0', 'ne0') and is_p(a[1]):
            return self.p0 == (k == 'eq0')
        if k == 'ge0' and a[1][0] == 'poly':
            d = dict(a[1][1])
            const = d.pop((), 0)
            if len(d) == 1 and is_p(list(d)[0][0]) and len(list(d)[0]) == 1:
                s = list(d.values())[0]
                if self.p0:
                    return const >= 0
                return True if s > 0 and s + const >= 0 else False if s < 0 and s + const < 0 else None
        if k == 'ge0' and is_p(a[1]):
            return True
        if is_p(a):
            return not self.p0
        if k == 'not':
            v = self.truth(a[1])
            return None if v is None else not v
        if k in ('and', 'or'):
            vs = [self.truth(x) for x in a[1]]
            if k == 'and':
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if k == 'isinst':
            return None
        if k == 'c':
            return bool(a[1])
        return None

    def of(self, t):
        key = (t, tuple(self.recs))
        if key not in self.memo:
            self.memo[key] = TOP
            self.memo[key] = self._of(t)
        return self.memo[key]

    def args(self, t):
        return dict(t[2])

    def _of(self, t):
        k = t[0]
        if k == 'dt':
            v = self.truth(t[1])
            if v is None and t[1][0] == 'isinst' and t[1][2] == ('bi', 'int') and t[1][1][0] == 'lp':
                return self.of(t[3])          # integer entries are the 0 and 1 of identity matrices
            if v is not None:
                return self.of(t[2] if v else t[3]) if len(t) == 4 else self.of(t[2])
            return meet(*(self.of(x) for x in t[2:4]))
        if k == 'p':
            return self.param
        if k == 'op':
            o = t[1]
            if o == '%':
                x = self.of(t[2])
                if not is_p(t[3]):
                    return TOP
                if self.p0:
                    self.zero.append(t)
                if x is BOT:
                    return BOT
                return (True, x[1] if x[0] is True else False if x[1] is not None else None, x[2])
            if o in ('**', '*', '+', '-', '@'):
                return (False, False, True if o in ('**', '*') and True in (self.of(t[2])[2], (self.of(t[3]) or TOP)[2]) else None) if self.of(t[2]) else TOP
            return TOP
        if k == 'call':
            return self.call(t)
        if k in ('seq', 'comp', 'bag', 'kv'):
            if k == 'seq':
                return meet(*(self.of(x) for x in t[1])) if t[1] else BOT
            if k == 'comp':
                return self.of(t[3])
            if k == 'kv':
                return self.of(t[2])
        if k == 'cat':
            return meet(*(self.of(x) for x in t[1]))
        if k == 'idx':
            b = self.of(t[1])
            if t[1][0] == 'seq' and t[2][0] == 'c' and isinstance(t[2][1], int) and t[2][1] < len(t[1][1]):
                return self.of(t[1][1][t[2][1]])
            if t[1][0] == 'call' and t[1][1].endswith(('JonesCellRep.artin_gens_invs', '.cell_matrices')) and t[2] == c(0) and b is not BOT:
                return b[:2] + (False,)
            if t[2][0] in ('seq', 'tup') and any(x[0] == 'slice' and x != ('slice', ('c', None), ('c', None), ('c', None)) for x in t[2][1]) and b is not BOT:
                return (b[0], True if self.trimmed(t) else None, b[2])
            return b
        if k == 'slice_of':
            return self.of(t[1])
        if k == 'rec':
            i = len(self.recs) - t[1]
            return self.recs[i] if 0 <= i < len(self.recs) else TOP
        if k in ('fin', 'mu'):
            if len(t) < 4:
                return TOP
            cur = self.of(t[2])
            for _ in range(4):
                self.recs.append(cur)
                new = meet(cur, self.of(t[3]))
                self.recs.pop()
                if new == cur:
                    return cur
                cur = new
            return cur
        if k == 'lambda':
            return self.of(t[2])
        if k == 'lp':
            return (False, None, None)
        return TOP

    def trimmed(self, t):
        """images[i][..., starts[i]:ends[i]] with the starts and ends of the same images."""
        s = repr(t[2])
        return 'proj_starts_ends' in s and repr(t[1]).find('proj_starts_ends') < 0

    def call(self, t):
        n, a = t[1], self.args(t)
        if n in CONTRACT:
            for v in a.values():
                if isinstance(v, tuple) and v and isinstance(v[0], str):
                    self.of(v)
            return CONTRACT[n]
        one = lambda *ks: next((a[q] for q in ks if q in a), None)
        if n == 'polymat.mul':
            x, y = one('A', 0), one('B', 1)
            if x is None or y is None or self.of(x) is BOT or self.of(y) is BOT:
                return TOP
            return (False, False, None)
        if n == 'polymat.projectivise':
            x = self.of(one('A', 0)) if one('A', 0) is not None else TOP
            return BOT if x is BOT else (x[0], True, False)
        if n in ('polymat.pack', 'polymat.concatenate'):
            return self.of(one('As', 0)) if one('As', 0) is not None else TOP
        if n == 'polymat.from_matrix':
            m = one('mat', 0)
            x = self.of(m) if m is not None else TOP
            if x is BOT:
                return BOT
            if x[2] is True and one('proj', 1) in (None, FALSE):
                self.refused.append(t)
            return (x[0], False if x[0] is not None else None, False)
        if n in ('numpy.mod', 'numpy.remainder') and len(a) == 2:
            return self._of(('op', '%', a[0], a[1]))
        if n == 'functools.reduce':
            f, xs, st = a.get(0), a.get(1), a.get(2)
            if xs is None:
                return TOP
            if f[0] == 'ext' and f[1].startswith('operator.'):
                return (False, None, True if True in ((self.of(xs) or TOP)[2],) else None)
            if f[0] == 'attr' and f[2] in ('mul', 'polymat_mul'):
                return meet(RP, self.of(st)) if st is not None else meet(RP, self.of(xs))
            return TOP
        if n == 'matrix.Matrix.map' or n == '.map':
            f, x = a.get('f', a.get(0)), a.get('self')
            if f is None or f[0] != 'lambda':
                return TOP
            b = self.of(x) if x is not None else TOP
            return (self.of(f)[0] if self.of(f) else None, None, b[2] if b else None)
        if n in ('tuple', 'list', 'numpy.array', '.reshape', '.copy', '.astype', 'numpy.copy', 'numpy.ascontiguousarray', 'numpy.stack', 'numpy.asarray'):
            x = one('self', 0)
            return self.of(x) if x is not None else TOP
        if n in ('numpy.identity', 'numpy.eye', 'polymat.eye'):
            return RP
        return TOP
