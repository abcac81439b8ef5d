"""Canonical forms of value-numbered functions, and how far two of them are apart.

Two functions that compute the same thing in a different shape (helpers extracted, branches inverted or nested differently,
statements reordered, comprehensions unrolled into loops, other local names) get the same form: loops are named by what
they run over, locals disappear, lists and arrays filled step by step become one description of their content, sums
accumulated in a loop become sums, and conditions become reduced ordered decision diagrams over atomic tests.
"""
from __future__ import annotations
import builtins
import functools
import itertools
import re
from .vn import (c, isint, odd, subst, poly, unpoly, padd, psub, pmul, pneg, subterms, items, arg, TRUE, FALSE, NONE, show, seqof, BACKWARDS)

ALLOC = ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full', 'numpy.zeros_like', 'numpy.empty_like', 'numpy.copy', 'numpy.array', '.copy', 'copy.copy', 'copy.deepcopy', 'numpy.eye', 'numpy.identity')
CONDS = ('ge0', 'eq0', 'ne0', 'cmp', 'and', 'or', 'not', 'isinst', 'forall', 'exists')
UNKNOWN = ('opaque', 'opq', 'undef', 'never', 'deep', 'rawcond')
MAXATOMS = 11


def rootof(t):
    while t[0] in ('idx', 'slice_of', 'attr', 'enter', 'at'):
        t = t[1]
    return t


def rebind(t, name, i):
    """Value for one loop index, inner loops of the same name left alone."""
    if not isinstance(t, tuple) or not t:
        return t
    if t == ('iv', name):
        return i
    if t[0] == 'comp' and name in t[2] or t[0] == 'exists' and name in t[1]:
        return t
    if len(t) == 6 and isinstance(t[0], str) and isinstance(t[2], tuple) and name in t[2]:
        return t[:1] + (rebind(t[1], name, i),) + t[2:]          # an entry of what is built
    if t[0] == 'poly':
        out = c(0)
        for mono, k in t[1]:
            x = c(k)
            for a in mono:
                x = pmul(x, rebind(a, name, i))
            out = padd(out, x)
        return out
    return tuple(rebind(x, name, i) for x in t)


def renames(t, m):
    """Several loop indices renamed at once."""
    if not isinstance(t, tuple) or not t:
        return t
    if t in m:
        return m[t]
    if t[0] == 'poly':
        out = c(0)
        for mono, k in t[1]:
            x = c(k)
            for a in mono:
                x = pmul(x, renames(a, m))
            out = padd(out, x)
        return out
    return tuple(renames(x, m) for x in t)


def unordered(names, body):
    """Nested loops whose order does not matter, in one order: the least after renaming."""
    if not 2 <= len(names) <= 3 or any(n[0] != 'for' or len(n) != 3 for n in names) or any(('iv', n) in set(subterms(q)) for n in names for q in names):
        return names, body
    best = None
    for p in itertools.permutations(names):
        m, new, used = {}, [], {}
        for n in p:
            free = sorted(q[2] for q in names if q[:2] == n[:2])
            d = n[:2] + (free[used.get(n[:2], 0)],)
            used[n[:2]] = used.get(n[:2], 0) + 1
            new.append(d)
            m[n] = d
        x = (tuple(new), renames(body, m))
        if best is None or repr(x) < repr(best):
            best = x
    return best


def asindex(i):
    """int(i) finds the same item as i."""
    if i[0] == 'call' and i[1] == 'int' and len(i[2]) == 1:
        return i[2][0][1]
    if i[0] == 'seq':
        return ('seq', tuple(asindex(x) for x in i[1]))
    return i


class Canon:
    def __init__(self, res):
        self.r, self.memo = res, {}
        self.lstack, self.mstack, self.ostack, self.depth = [], [], [], 0
        self.byroot = {}
        for e in res.events:
            if e.kind in ('store', 'mut', 'del') or e.kind == 'setattr':
                self.byroot.setdefault(rootof(e.base), []).append(e)
        self.guards = set()
        for e in res.events:
            if e.kind == 'raise':
                fr = [x for x in e.ctx if x[0] == 'if']
                if fr:
                    from .vn import neg
                    n = neg(fr[-1][1])
                    self.guards.add(n)
                    if n[0] == 'and':
                        self.guards.update(n[1])
        for L in res.loops.values():
            if L.counted:
                self.guards.add(L.cond)
        self.ignore = ()
        self.lp = 0
        self.busy = set()

    # ---- loops
    def lname(self, k):
        if k in self.lstack:
            return ('Lself', len(self.lstack) - self.lstack.index(k))
        key = ('L', k, tuple(self.lstack), tuple(self.mstack), tuple(self.ostack))
        if key in self.memo:
            return self.memo[key]
        L = self.r.loops.get(k)
        if L is None:
            return ('loop?',)
        self.lstack.append(k)
        try:
            if L.kind == 'while':
                d = ('while', self.cond(L.cond) if L.cond is not None else ('dt', ()))
            elif L.step == c(1) or L.step == c(-1):
                n = psub(L.hi, L.lo) if L.step == c(1) else psub(L.lo, L.hi)
                d = ('for', self.t(n))
            else:
                d = ('forstep', self.t(L.lo), self.t(L.hi), self.t(L.step))
        finally:
            self.lstack.pop()
        dup = sum(1 for q in L.parents + L.pre if q not in self.lstack and self.r.loops.get(q) is not None and self.lname(q)[:len(d)] == d)
        d = d + (dup,)
        self.memo[key] = d
        return d

    def iv(self, k):
        L = self.r.loops.get(k)
        v = ('iv', self.lname(k))
        if L is not None and L.kind == 'range' and k not in self.lstack:
            if L.step == c(1):
                return padd(self.t(L.lo), v)
            if L.step == c(-1):
                return psub(self.t(L.lo), v)
        return v

    # ---- terms
    def t(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        key = (t, tuple(self.lstack), tuple(self.mstack), tuple(self.ostack))
        if key in self.memo:
            return self.memo[key]
        self.depth += 1
        try:
            out = ('deep',) if self.depth > 60 else self.t1(t)
        finally:
            self.depth -= 1
        self.memo[key] = out
        return out

    def args(self, a):
        out = []
        for n, v in a:
            if n in self.ignore:
                continue
            out.append((n, self.t(v)))
        return tuple(sorted(out, key=lambda x: str(x[0])))

    def t1(self, t):
        k = t[0]
        if not isinstance(k, str):
            return tuple(self.t(x) for x in t)
        if k == 'c':
            return t
        if k == 'canonical':
            return t[1]
        if k == 'key':
            return ('idx', self.t(t[1]), self.t(t[2]))
        if k == 'iv':
            return self.iv(t[1])
        if k == 'poly':
            out = c(0)
            for m, co in t[1]:
                x = c(co)
                for a in m:
                    x = pmul(x, self.t(a))
                out = padd(out, x)
            return out
        if k in CONDS or k == 'phi':
            return self.dt(t)
        if k in ('mu', 'fin'):
            return self.carried(t)
        if k == 'last':
            return ('last', self.lname(t[1]), self.t(t[2]))
        if k in ('trips', 'itercount'):
            return (k, self.lname(t[1]))
        if k == 'comp':
            return self.comp(t[1], t[2], t[3], t[4])
        if k == 'obj':
            return self.obj(t)
        if k == 'fn':
            return self.fn(t)
        if k in ('tuple', 'list'):
            if any(x[0] == 'star' for x in t[1]):
                return self.t(('cat', tuple(x[1] if x[0] == 'star' else ('tuple', (x,)) for x in t[1])))
            return ('seq', tuple(self.t(x) for x in t[1]))
        if k == 'call':
            return self.call(t)
        if k == 'new':
            return ('new', t[1], self.args(t[2]))
        if k in ('min', 'max'):
            xs = set()
            for x in t[1]:
                y = self.t(x)
                xs |= set(y[1]) if y[0] == k else {y}
            return (k, tuple(sorted(xs, key=repr))) if len(xs) > 1 else xs.pop()
        if k == 'fstr' or k == 'op' and t[1] in ('+', '%') and textual(t):
            return self.text(t)
        if k == 'op' and (t[1] in ('&', '|', '^') or t[1] == '+' and t in self.r.commutes):
            a, b = sorted((self.t(t[2]), self.t(t[3])), key=repr)
            return ('op', t[1], a, b)
        if k == 'at':
            return self.at(t)
        if k == 'opaque':
            return ('opaque',)
        if k == 'never':
            return ('never',)
        if k == 'opq':
            return ('opq', t[1])
        if k == 'cat':
            parts = []
            for x in t[1]:
                y = self.t(x)
                if y[0] == 'seq' and parts and parts[-1][0] == 'seq':
                    parts[-1] = ('seq', parts[-1][1] + y[1])
                elif y != ('seq', ()):
                    parts.append(y)
            return ('cat', tuple(parts)) if len(parts) != 1 else parts[0]
        if k == 'idx':
            b, i = self.t(t[1]), asindex(self.t(t[2]))
            if b[0] == 'seq' and isint(i) and -len(b[1]) <= i[1] < len(b[1]) and not any(x[0] == 'star' for x in b[1]):
                return b[1][i[1]]
            if b[0] == 'comp' and b[1] == 'seq' and len(b[2]) == 1 and not b[4] and b[2][0][0] == 'for' and (not isint(i) or i[1] >= 0) and i[0] != 'slice':
                return rebind(b[3], b[2][0], i)
            if b[:2] == ('op', '*') and b[2][0] == 'seq' and len(b[2][1]) == 1 and b[2][1][0][0] == 'c' and (not isint(i) or i[1] >= 0) and i[0] != 'slice':
                return b[2][1][0]
            return ('idx', b, i)
        if k == 'slice_of':
            b, lo, hi = self.t(t[1]), self.t(t[2]), self.t(t[3])
            if lo == c(0):
                lo = NONE
            if lo == NONE and hi == NONE:
                return b
            if b[0] == 'comp' and b[1] == 'seq' and len(b[2]) == 1 and not b[4] and b[2][0][0] == 'for' and b[2][0][1][:2] == ('call', 'len'):
                # a slice of [e(x) for x in xs] is that of the slice of xs
                n = (b[2][0][0], ('call', 'len', ((0, ('slice_of', b[2][0][1][2][0][1], lo, hi)),))) + b[2][0][2:]
                return self.plain(('comp', 'seq', (n,), rebind(b[3], b[2][0], padd(c(0) if lo == NONE else lo, ('iv', n))), b[4]))
            return ('slice_of', b, lo, hi)
        return (k,) + tuple(self.t(x) if isinstance(x, tuple) else x for x in t[1:])

    def at(self, t):
        """An object read after some of the changes made to it."""
        _, x, what, n, loops = t
        ev = [e for e in self.r.events if x in getattr(e, what)]
        out = self.t(x)
        if x in self.r.born:               # each round of a loop it is made in has one of its own
            loops = tuple(k for k in loops if ('loop', k) not in [fr[:2] for fr in self.r.born[x][0]])
        inside = [i for i, e in enumerate(ev) if any(fr[0] == 'loop' and fr[1] in loops for fr in e.ctx)]
        if inside:
            n -= inside[0]
            return ('at', out, n) if n > 0 else out
        if n < len(ev):
            return ('at', out, n)
        return out if rootof(x)[0] in ('obj', 'call') else ('at', out, 'end')

    def text(self, t):
        """A string made of pieces: constants and formatted values, however it is put together."""
        out = []
        def add(x):
            if x[0] == 'c' and isinstance(x[1], str):
                if not x[1]:
                    return
                if out and out[-1][0] == 'c':
                    out[-1] = ('c', out[-1][1] + x[1])
                    return
                out.append(x)
            elif x[0] == 'fstr':
                for y in x[1]:
                    add(y)
            elif x[0] in ('fmt', 'dt') or textual(x):
                out.append(x)
            else:
                out.append(('fmt', x, -1, NONE))
        def put(x):
            if x[0] == 'fstr':
                for y in x[1]:
                    put(y)
            elif x[0] == 'fmt':
                v = self.t(x[1])
                if x[3] == NONE and x[2] != 114 and textual(v):
                    add(v)
                else:
                    add(('fmt', v, -1 if x[2] == 115 else x[2], self.t(x[3])))
            elif x[0] == 'op' and x[1] == '+':
                put(x[2])
                put(x[3])
            elif x[0] == 'op' and x[1] == '%':
                f, v = x[2], x[3]
                bits = re.split(r'%([sdr%])', f[1]) if f[0] == 'c' and isinstance(f[1], str) else []
                vs = list(v[1]) if v[0] == 'tuple' else [v]
                if len(bits) < 2 or '%' in ''.join(bits[::2]) or len([b for b in bits[1::2] if b != '%']) != len(vs):
                    add(('op', '%', self.t(f), self.t(v)))
                    return
                for i, b in enumerate(bits):
                    put(c(b) if not i % 2 or b == '%' else ('fmt', vs.pop(0), 114 if b == 'r' else -1, NONE))
            elif x[0] == 'call' and x[1] in ('str', 'repr') and len(x[2]) == 1 and x[2][0][0] == 0:
                put(('fmt', x[2][0][1], 114 if x[1] == 'repr' else -1, NONE))
            elif x[0] == 'call' and x[1] == '.format':
                d = dict(x[2])
                f = d.get('self', NONE)
                bits = pieces(f[1]) if f[0] == 'c' and isinstance(f[1], str) else None
                if bits is None or not all(isinstance(b, str) or b[0] in d for b in bits):
                    add(('call', '.format', self.args(x[2])))
                    return
                for b in bits:
                    put(c(b) if isinstance(b, str) else ('fmt', d[b[0]], b[1], c(b[2]) if b[2] else NONE))
            else:
                y = self.t(x)
                if y[0] == 'call' and y[1] == '.join':
                    d = dict(y[2])
                    xs, sep = d.get(0, NONE), d.get('self', NONE)
                    if sep[0] == 'c' and xs[0] == 'seq' and not any(z[0] == 'star' for z in xs[1]):
                        for i, z in enumerate(xs[1]):
                            if i:
                                add(sep)
                            add(z)
                        return
                add(y)
        put(t)
        if not out:
            return c('')
        if len(out) == 1 and out[0][0] != 'fmt':
            return out[0]
        return ('fstr', tuple(out))

    def each(self, x, f):
        """[f(y) for y in x]"""
        if x[0] == 'seq' and not any(y[0] == 'star' for y in x[1]):
            return ('seq', tuple(f(y) for y in x[1]))
        n = ('for', self.call(('call', 'len', ((0, ('canonical', x)),))), 0)
        v = ('iv', n)
        if x[0] == 'comp' and x[1] == 'seq' and len(x[2]) == 1 and not x[4] and x[2][0][0] == 'for':
            return self.plain(('comp', 'seq', x[2], f(x[3]), ()))
        return self.plain(('comp', 'seq', (n,), f(('idx', x, v)), ()))

    def call(self, t):
        name, a = t[1], t[2]
        if name in ('str', 'repr') and len(a) == 1 and a[0][0] == 0 or name == '.format' or name == '.join':
            if name != '.join':
                return self.text(t)
            d = dict(a)
            if d.get(0, NONE)[0] in ('tuple', 'list') and d.get('self', NONE)[0] == 'c' and 'join' not in self.busy:
                self.busy.add('join')
                try:
                    return self.text(t)
                finally:
                    self.busy.discard('join')
        if name == 'map' and len(a) == 2:
            f, x = a[0][1], self.t(a[1][1])
            if f[0] == 'bi':
                return self.each(x, lambda y: self.call(('call', f[1], ((0, ('canonical', y)),))))
            if f[0] == 'fn':
                g = self.t(f)
                if g[0] == 'lambda' and g[1] == 1:
                    q = ('lp', self.lp + 1, 0)
                    return self.each(x, lambda y: subst(g[2], {q: y}))
        if name in ('.items', '.keys', '.values') and len(a) == 1 and a[0][0] == 'self':
            x = self.t(a[0][1])
            if name == '.keys':
                return x
            n = ('for', ('call', 'len', ((0, x),)), 0)
            k = ('idx', x, ('iv', n))
            return ('comp', 'seq', (n,), ('idx', x, k) if name == '.values' else ('seq', (k, ('idx', x, k))), ())
        if name in ('tuple', 'list', 'iter') and len(a) == 1:
            return self.t(a[0][1])
        if name == 'reversed' and len(a) == 1:
            x = seqof(t)
            if x[0] == 'idx':
                return self.t(x)
        if name == 'len' and len(a) == 1 and a[0][1][0] == 'idx' and a[0][1][2] == BACKWARDS:
            return self.call(('call', 'len', ((0, a[0][1][1]),)))
        if name in ('sum', 'numpy.sum') and len(a) == 1:
            return self.sum(self.t(a[0][1]))
        if name == 'sum' and len(a) == 2:
            i = self.t(a[1][1])
            if i[0] == 'new':
                return ('op', '+') + tuple(sorted((i, self.sum(self.t(a[0][1]))), key=repr))
            return padd(i, self.sum(self.t(a[0][1])))
        if len(t) > 3 and t in self.byroot and name in ALLOC:
            return self.obj(t)
        if name == 'len' and len(a) == 1:
            x = self.t(a[0][1])
            if x[0] == 'seq' and not any(y[0] == 'star' for y in x[1]):
                return c(len(x[1]))
            if x[0] == 'comp' and x[1] == 'seq' and not x[4] and len(x[2]) == 1 and x[2][0][0] == 'for':
                return x[2][0][1]
            if x[0] == 'comp' and x[1] == 'seq' and x[4]:
                return self.sum(x[:3] + (c(1), x[4]))
            return ('call', 'len', ((0, x),))
        if '<locals>' in name:
            g = self.r.vn.p.func(name)
            cl = next((k for k, (h, _) in self.r.vn.closures.items() if h is g), None)
            if g is getattr(self, 'genself', None):
                return ('call', 'genself', tuple((i, self.t(v)) for i, (_, v) in enumerate(a)))
            if cl is not None and g is not None and g.is_gen:
                return ('call', 'local', (('fn', self.genfn(g, self.r.vn.closures[cl][1])),) + tuple((i, self.t(v)) for i, (_, v) in enumerate(a)))
            name = name.split('<locals>.')[-1]
        return ('call', name, self.args(a))

    def sum(self, x):
        if x[0] == 'comp' and x[1] == 'seq' and not x[4] and (x[3][0] == 'dt' and _boolean(x[3]) or x[3][0] in CONDS):
            x = x[:3] + (c(1), x[3])
        if x[0] == 'comp' and x[1] == 'seq' and x[3][0] == 'call' and x[3][1] == 'sum' and len(x[3][2]) == 1 and x[3][2][0][1][0] == 'comp' and not x[4]:
            y = x[3][2][0][1]
            return self.sum(('comp', 'seq', x[2] + y[2], y[3], y[4]))
        if x[0] == 'seq':
            out = c(0)
            for y in x[1]:
                out = padd(out, y)
            return out
        if x[0] == 'comp' and x[1] == 'seq' and len(x[2]) > 1:
            names, (e, cd) = unordered(x[2], (x[3], x[4]))
            x = ('comp', 'seq', names, e, cd)
        return ('call', 'sum', ((0, x),))

    def comp(self, kind, ids, elt, conds):
        kind = {'list': 'seq', 'gen': 'seq'}.get(kind, kind)
        e = self.t(elt)
        cd = self.cond(('and', tuple(conds))) if len(conds) > 1 else self.cond(conds[0]) if conds else ()
        names = tuple(self.lname(i) for i in ids)
        return self.plain(('comp', kind, names, e, cd))

    def plain(self, t):
        """[x[i] for i in range(len(x))] is x."""
        _, kind, names, e, cd = t
        if kind == 'seq' and len(names) == 1 and not cd and e[0] == 'idx' and e[2] == ('iv', names[0]) and names[0][0] == 'for' and names[0][1] == ('call', 'len', ((0, e[1]),)):
            return e[1]
        if kind == 'seq' and len(names) == 1 and not cd and e[0] == 'idx' and names[0][0] == 'for':
            v = ('iv', names[0])
            lo = psub(e[2], v)
            if not any(s == v for s in subterms(lo)) and not any(s == v for s in subterms(e[1])):
                hi = padd(lo, names[0][1])
                return ('slice_of', e[1], NONE if lo == c(0) else lo, NONE if hi == ('call', 'len', ((0, e[1]),)) else hi)
        if kind == 'seq' and len(names) == 1 and not cd and e[0] == 'c' and names[0][0] == 'for':
            return ('op', '*', ('seq', (e,)), names[0][1])
        return t

    def carried(self, t):
        _, k, v = t
        if (k, v) in self.mstack:
            return ('rec', len(self.mstack) - self.mstack.index((k, v)))
        L = self.r.loops.get(k)
        if L is None or v not in L.mu or len(self.mstack) > 6:
            return ('deep',)
        init, nxt = L.mu[v]
        if nxt is None:
            return ('deep',)
        i = self.t(init)
        self.mstack.append((k, v))
        try:
            n = self.t(nxt)
        finally:
            self.mstack.pop()
        if t[0] == 'mu' and i in (FALSE, TRUE) and self.stays(L, k, v, init, nxt):
            return i
        ln = self.lname(k)
        if t[0] == 'fin' and not L.breaks and L.kind != 'while':
            s = self.accum(i, n, ln, any(x in self.r.commutes for x in subterms(nxt)))
            if s is not None:
                return s
        return (t[0], ln, i, n)

    def stays(self, L, k, v, init, nxt):
        """A flag that still has its first value whenever another iteration begins: the loop is left as soon as it changes."""
        from .vn import neg, conj
        out = []
        for e in self.r.events:
            if e.kind == 'break' and e.loops() and e.loops()[-1] == k:
                i = max(j for j, f in enumerate(e.ctx) if f[0] == 'loop')
                fr = e.ctx[i + 1:]
                if all(f[0] == 'if' for f in fr):
                    out.append(conj([f[1] for f in fr]))
        if not out:
            return False
        # by induction: the value is the first one when this iteration begins
        m = {('mu', k, v): init}
        runs = (('ge0', psub(psub(L.hi, ('iv', k)), c(1))),) if L.kind == 'range' and L.step == c(1) else ()
        return self.cond(subst(('and', runs + tuple(neg(x) for x in out) + (nxt if init == FALSE else neg(nxt),)), m)) == FALSE

    def accum(self, i, n, ln, ring=False):
        """init + sum of what is added per iteration."""
        rec = ('rec', 1)
        cd = ()
        if n[0] == 'dt' and len(n) == 4 and (n[2] == rec or n[3] == rec):
            cd = ('dt', n[1], TRUE, FALSE) if n[3] == rec else ('dt', n[1], FALSE, TRUE)
            n = n[2] if n[3] == rec else n[3]
        if n[:2] == ('op', '+') and (n[2] == rec or n[3] == rec):
            d = n[3] if n[2] == rec else n[2]
            if any(s[0] == 'rec' for s in subterms(d)):
                return None
            return ('op', '+') + tuple(sorted((i, self.sum(('comp', 'seq', (ln,), d, cd))), key=repr)) if ring else None
        if n[0] == 'cat' and n[1][0] == rec and len(n[1]) == 2 and i[0] in ('seq', 'cat') and not any(s[0] == 'rec' for s in subterms(n[1][1])):
            d = n[1][1]
            if d[0] == 'seq' and len(d[1]) == 1:
                x = ('comp', 'seq', (ln,), d[1][0], cd)
            elif d[:2] == ('comp', 'seq'):
                x = ('comp', 'seq', (ln,) + d[2], d[3], cd if not d[4] else d[4] if not cd else self.build(('and', (_untree(cd), _untree(d[4])))))
            else:
                return None
            x = self.plain(x)
            return x if i == ('seq', ()) else ('cat', (i[1] if i[0] == 'cat' else (i,)) + (x,))
        if n[0] != 'poly':
            return None
        d = psub(n, rec)
        if any(s == rec for s in subterms(d)) or any(s[0] == 'rec' for s in subterms(d)):
            return None
        return padd(i, self.sum(('comp', 'seq', (ln,), d, cd)))

    def fn(self, t):
        vn = self.r.vn
        g, env = vn.closures.get(t[1], (None, None))
        if g is None or self.lp > 2:
            return ('fn',)
        if g.is_gen:
            return self.genfn(g, env)
        self.lp += 1
        try:
            ps = [('lp', self.lp, i) for i in range(len(g.params))]
            b = dict(zip(g.params, ps))
            n0 = len(vn.res.events)
            stack, vn.stack, f = vn.stack, [g], vn.f
            ctx, vn.ctx = vn.ctx, ()
            try:
                e = dict(env)
                e.update(b)
                import ast
                if isinstance(g.node, ast.Lambda):
                    vn.f = g
                    v = vn.ev(g.node.body, e)
                else:
                    vn.stack = []
                    v = vn.inline_call(g, b, g.node, env)
            finally:
                vn.stack, vn.ctx, vn.f = stack, ctx, f
            return ('lambda', len(ps), self.t(v))
        finally:
            self.lp -= 1

    def genfn(self, g, env):
        """A nested generator: what it yields and does, over its parameters and what it captured."""
        from .vn import VN
        key = ('genfn', g)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ('genself',)
        vn = self.r.vn
        sub = VN(vn.an, vn.vocab, vn.inline, vn.keep, vn.maxdepth)
        names = {}
        for q, v in env.items():
            names[q] = ('cap', self.t(v)) if v[0] != 'fn' else ('capfn',)
        args = {q: v for q, v in names.items() if q not in g.allparams()}
        args.update({q: ('lp', 9, i) for i, q in enumerate(g.allparams())})
        sub.closures = dict(vn.closures)
        sub.uid = vn.uid + 1000
        res = sub.run(g, args)
        f = Form(res, self.ignore)
        f.c.memo[key] = ('genself',)
        f.c.genself = g
        self.memo[key] = out = ('genfn', len(g.params), f.yields(), f.effects())
        return out

    # ---- objects filled step by step
    def rel(self, ctx, base):
        n = 0
        while n < len(base) and n < len(ctx) and ctx[n] == base[n]:
            n += 1
        return ctx[n:]

    def isguard(self, before, cd):
        """Whether the negation of the condition always ends in an exception."""
        from .vn import neg, conj
        rc = []
        for e in self.r.events:
            if e.kind == 'raise' and all(f[0] in ('if', 'exit') for f in e.ctx):
                rc.append(conj([f[1] for f in e.ctx if f[0] == 'if']))
        if not rc:
            return False
        x = ('and', tuple(f[1] for f in before if f[0] == 'if') + (neg(cd),) + tuple(neg(r) for r in rc))
        return self.cond(x) == FALSE

    def vacuous(self, cd, later):
        """Whether a loop entered afterwards makes no turn unless the condition holds."""
        from .vn import ge0, neg, conj
        for f in later:
            L = self.r.loops.get(f[1]) if f[0] == 'loop' else None
            if L is not None and L.hi is not None and L.step == c(1) and L.kind != 'while' and size(cd) < 60:
                if self.cond(conj([ge0(psub(psub(L.hi, L.lo), c(1))), neg(cd)])) == FALSE:
                    return True
        return False

    def where(self, frames):
        """(loop names, condition) of a run of context frames."""
        loops = tuple(self.lname(f[1]) for f in frames if f[0] == 'loop')
        cs = []
        for i, f in enumerate(frames):
            if f[0] == 'if' and f[1] not in self.guards and not (f[1][0] == 'or' and self.isguard(frames[:i], f[1])) and not self.vacuous(f[1], frames[i + 1:]):
                cs.append(f[1])
        cd = self.cond(('and', tuple(cs))) if len(cs) > 1 else self.cond(cs[0]) if cs else ()
        if cd == TRUE:
            cd = ()
        extra = tuple(f[0] for f in frames if f[0] in ('except', 'finally'))
        return loops, cd, extra

    def obj(self, t):
        if t in self.ostack:
            return ('me', len(self.ostack) - self.ostack.index(t))
        self.ostack.append(t)
        try:
            base, init = self.r.born.get(t, ((), None))
            if init is None:
                init = self.t(('call', t[1], t[2])) if t[0] == 'call' else ('obj', t[2])
            elif init[0] in ('list', 'set', 'dict') and init[1] == ():
                init = ('seq', ()) if init[0] == 'list' else (init[0], ())
            else:
                init = self.t(init)
            evs = []
            for e in self.byroot.get(t, []):
                if e.kind == 'mut' and e.name == 'extend' and e.args:
                    x = self.t(e.args[0][1])
                    lo, cd, ex = self.where(self.rel(e.ctx, base))
                    if x[0] == 'comp' and x[1] == 'seq' and (not cd or not x[4]):
                        evs.append(('append', self.t(e.base), lo + x[2], x[3], cd or x[4], ex))
                        continue
                    if x[0] == 'seq':
                        evs += [('append', self.t(e.base), lo, y, cd, ex) for y in x[1]]
                        continue
                lo, cd, ex = self.where(self.rel(e.ctx, base))
                if e.kind == 'mut':
                    a = self.args(e.args)
                    evs.append((e.name, self.t(e.base), lo, a[0][1] if len(a) == 1 else a, cd, ex))
                elif e.kind == 'store':
                    b, i, v = self.t(e.base), self.t(e.index), self.t(e.value)
                    if len(lo) > 1 and not ex:
                        add = psub(v, ('idx', b, i))
                        if v[0] == 'poly' and not any(s[0] == 'me' for s in subterms((add, i, cd))):
                            lo, (i, v, cd) = unordered(lo, (i, v, cd))
                    evs.append(('store', b, lo, (i, v), cd, ex))
                elif e.kind == 'setattr':
                    evs.append(('setattr', self.t(e.base), lo, (e.name, self.t(e.value)), cd, ex))
                else:
                    evs.append(('del', self.t(e.base), lo, self.t(e.index), cd, ex))
        finally:
            self.ostack.pop()
        # steps of one round that exclude each other have no order
        for i in range(len(evs)):
            for j in range(i, 0, -1):
                x, y = evs[j - 1], evs[j]
                if x[2] == y[2] and x[4] and y[4] and x[5] == y[5] and repr(y) < repr(x) and self.build(('and', (_untree(x[4]), _untree(y[4])))) == FALSE:
                    evs[j - 1], evs[j] = y, x
                else:
                    break
        me = ('me', 1)
        if init == ('seq', ()) and len(evs) > 1 and evs[0][0] == 'append' and evs[0][1] == me and evs[0][2] and not evs[0][5] and all(x[0] in ('store', 'sort', 'reverse') for x in evs[1:]):
            init = self.plain(('comp', 'seq', evs[0][2], evs[0][3], evs[0][4]))
            evs = evs[1:]
        if not evs:
            return init
        if init[0] == 'seq' and all(x[0] == 'append' and x[1] == me and not x[2] and not x[4] and not x[5] for x in evs):
            return ('seq', init[1] + tuple(x[3] for x in evs))
        if init == ('seq', ()) and len(evs) == 1 and evs[0][0] == 'append' and evs[0][1] == me and evs[0][2] and not evs[0][5]:
            _, _, lo, v, cd, _ = evs[0]
            return self.plain(('comp', 'seq', lo, v, cd))
        if init == ('set', ()) and len(evs) == 1 and evs[0][0] == 'add' and evs[0][1] == me and evs[0][2] and not evs[0][5]:
            return ('comp', 'set', evs[0][2], evs[0][3], evs[0][4])
        if init == ('dict', ()) and len(evs) == 1 and evs[0][0] == 'store' and evs[0][1] == me and evs[0][2] and not evs[0][5]:
            return ('comp', 'dict', evs[0][2], ('kv',) + evs[0][3], evs[0][4])
        return ('built', init, tuple(evs))

    # ---- conditions
    def literal(self, t):
        """(atom, polarity) of an atomic condition, in canonical form."""
        k = t[0]
        if k == 'not':
            a, s = self.literal(t[1])
            return a, not s
        if k in ('ge0', 'eq0', 'ne0'):
            a, s = literal2('ge0' if k == 'ge0' else 'eq0', self.t(t[1]))
            return a, s == (k != 'ne0')
        if k == 'cmp':
            op, a, b = t[1], self.t(t[2]), self.t(t[3])
            pol = True
            if op in ('!=', 'is not', 'not in'):
                op, pol = {'!=': '==', 'is not': 'is', 'not in': 'in'}[op], False
            if op == '<=':
                op, a, b, pol = '<', b, a, False
            if op == '==':                 # written as a difference, whatever the operands are
                k2, eq = literal2('eq0', psub(a, b))
                return k2, eq == pol
            num = any(isint(x) or x[0] == 'poly' for x in (a, b)) and not any(x[0] == 'c' and not isint(x) for x in (a, b))
            if num and op == '<':
                # a < b  <=>  b - a - 1 >= 0
                k2, lt = literal2('ge0', psub(psub(b, a), c(1)))
                return k2, lt == pol
            if op == 'is' and repr(b) < repr(a):
                a, b = b, a
            if op == 'is' and a[0] == 'c' and b[0] == 'c':
                return c(a[1] is b[1]), pol
            return ('cmp', op, a, b), pol
        if k in ('forall', 'exists'):
            from .vn import neg
            if k == 'forall':
                a, s = self.literal(('exists', t[1], neg(t[2])))
                return a, not s
            inner = self.cond(t[2])
            if inner in (FALSE,):
                return c(False), True
            ln = self.lname(t[1])
            if inner[0] == 'dt' and inner[1][0] == 'exists' and inner[2:] == (TRUE, FALSE):
                return ('exists', (ln,) + inner[1][1], inner[1][2]), True
            return ('exists', (ln,), inner), True
        if k == 'isinst':
            return ('isinst', self.t(t[1]), self.t(t[2])), True
        x = self.t(t)
        if x[0] == 'c':
            return c(bool(x[1])), True
        return ('true', x), True

    def cond(self, t):
        """Decision diagram with truth-value leaves."""
        return self.build(self.tree(t, True))

    def dt(self, t):
        return self.build(self.tree(t, t[0] != 'phi'))

    def tree(self, t, boolean):
        """Expression over ('lit', atom, polarity), and/or, ('if', c, a, b), leaves."""
        k = t[0]
        if k == 'phi':
            return ('if', self.tree(t[1], True), self.tree(t[2], boolean), self.tree(t[3], boolean))
        if boolean or k in CONDS:
            if k in ('and', 'or'):
                return self.gather(k, t[1])
            if k == 'not' and t[1][0] in ('and', 'or', 'phi', 'not'):
                return ('if', self.tree(t[1], True), ('leaf', FALSE), ('leaf', TRUE))
            if k == 'c':
                return ('leaf', c(bool(t[1])))
            a, s = self.literal(t)
            if a[0] == 'c':
                return ('leaf', c(a[1] == s))
            if a[0] == 'true' and a[1][0] == 'dt' and _boolean(a[1]):
                tr = _untree(a[1])
                return tr if s else ('if', tr, ('leaf', FALSE), ('leaf', TRUE))
            return ('lit', a, s)
        x = self.t(t)
        if x[0] == 'dt':
            return _untree(x)
        return ('leaf', x)

    def gather(self, k, xs):
        """One quantifier for neighbouring tests of the same items: any(a) or any(b) is any(a or b)."""
        if k == 'or' and sum(x[0] == 'and' for x in xs):
            from .vn import neg, conj
            xs = tuple(conj([y for y in x[1] if neg(y) not in xs]) if x[0] == 'and' else x for x in xs)
        out, at = [], {}
        for x in xs:
            y = self.tree(x, True)
            if y[0] == 'lit' and y[1][0] == 'exists' and y[2] == (k == 'or'):
                name = y[1][1]
                if name in at:
                    old = out[at[name]]
                    if old[1] != y[1]:
                        inner = self.build(('or', (_untree(old[1][2]), _untree(y[1][2]))))
                        out[at[name]] = ('lit', ('exists', name, inner), y[2]) if inner not in (TRUE, FALSE) else old
                    continue
                at[name] = len(out)
            out.append(y)
        return (k, tuple(out)) if len(out) != 1 else out[0]

    def build(self, e):
        atoms = sorted(_atoms(e), key=lambda a: (branching(a), repr(a)))
        if len(atoms) > MAXATOMS:
            return ('rawcond', e)
        return _shannon(e, atoms, 0, {}, {})


DC = ('dontcare',)


def textual(x):
    """Whether a term is known to be a string."""
    k = x[0]
    if k == 'c':
        return isinstance(x[1], str)
    if k == 'fstr':
        return True
    if k == 'call':
        return x[1] in ('str', 'repr', '.join', '.format', '.strip', '.rstrip', '.lstrip', '.lower', '.upper')
    if k == 'op':
        return x[1] == '+' and (textual(x[2]) or textual(x[3])) or x[1] == '%' and textual(x[2])
    if k == 'dt':
        return textual(x[2]) and textual(x[3])
    if k == 'phi':
        return textual(x[2]) and textual(x[3])
    return False


def pieces(f):
    """What a format string consists of: text, and (field, conversion, specification)."""
    import string
    out, n = [], 0
    try:
        for text, field, spec, conv in string.Formatter().parse(f):
            if text:
                out.append(text)
            if field is None:
                continue
            if spec and '{' in spec or field and not re.fullmatch(r'\w+', field):
                return None
            if field == '':
                field, n = n, n + 1
            elif field.isdigit():
                field = int(field)
            out.append((field, ord(conv) if conv else -1, spec))
    except ValueError:
        return None
    return out


def settle(a, known):
    """(atom, polarity) of a condition where others are known."""
    if branching(a) and a[0] in ('eq0', 'ge0'):
        b = under(a[1], known)
        if b != a[1]:
            a, s = literal2(a[0], b)
            if s is False or a[0] == 'c':
                return a, s
    if a[0] == 'ge0':                      # p >= 0 where p != 0
        for b, v in known.items():
            if not v and b[0] == 'eq0' and b[1] in (a[1], pneg(a[1])):
                return ('ge0', psub(a[1], c(1))), True
    return a, True


THROUGH = {'call', 'op', 'fstr', 'fmt', 'seq', 'cat', 'idx', 'at', 'new', 'attr', 'min', 'max', 'poly', 'slice_of', 'dt'}


def branching(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if x and x[0] == 'dt':
            return True
        todo += [y for y in x if isinstance(y, tuple)]
    return False


def under(t, known, top=True):
    """A value where the known conditions hold."""
    if not isinstance(t, tuple) or not t or not known or not branching(t):
        return t
    if t[0] == 'dt':
        q, s = settle(t[1], known)
        v = q[1] if q[0] == 'c' else infer(known, q)
        if v is not None:
            return under(t[2] if v == s else t[3], known)
        a, b = under(t[2], {**known, q: s}), under(t[3], {**known, q: not s})
        return a if a == b else ('dt', q, a, b) if s else ('dt', q, b, a)
    if isinstance(t[0], str) and t[0] not in THROUGH:
        return t
    if t[0] == 'poly':
        out = c(0)
        for m, co in t[1]:
            x = c(co)
            for a in m:
                x = pmul(x, under(a, known))
            out = padd(out, x)
        return out
    new = tuple(under(x, known) for x in t)
    if new != t and new[0] == 'fstr':
        out = []
        for x in new[1]:
            for y in x[1] if x[0] == 'fstr' else (x,):
                if y[0] == 'c' and out and out[-1][0] == 'c':
                    out[-1] = ('c', out[-1][1] + y[1])
                elif y != ('c', ''):
                    out.append(y)
        return c('') if not out else out[0] if len(out) == 1 and out[0][0] != 'fmt' else ('fstr', tuple(out))
    return new


def literal2(k, p):
    if k == 'ge0':
        if isint(p):
            return c(p[1] >= 0), True
        d = dict(p[1]) if p[0] == 'poly' else {(p,): 1}
        b = d.pop((), 0)
        if d and all(m and all(_nonneg(x) for x in m) for m in d):
            if b >= 0 and all(x > 0 for x in d.values()):
                return TRUE, True
            if b < 0 and all(x < 0 for x in d.values()):
                return FALSE, True
            if len(d) == 1:
                (m, x), = d.items()
                y = ('poly', ((m, 1),)) if len(m) > 1 else m[0]
                if x < 0 and b < -x:
                    return ('eq0', min(y, pneg(y), key=repr)), True
                if x > 0 and -x <= b < 0:
                    return ('eq0', min(y, pneg(y), key=repr)), False
        # oriented by the sign of the first monomial, so that neighbouring bounds are written alike
        lead = min(d, key=repr)
        return (('ge0', p), True) if d[lead] > 0 else (('ge0', psub(pneg(p), c(1))), False)
    if isint(p):
        return c(p[1] == 0), True
    if p[0] == 'poly' and len(p[1]) == 2 and all(len(m) == 1 and m[0][0] == 'c' and isinstance(m[0][1], str) for m, _ in p[1]) and sum(k for _, k in p[1]) == 0:
        return FALSE, True                 # two different strings
    q = odd(p)
    if q is not None:
        return ('eq0', min(q, pneg(q), key=repr)), False
    return ('eq0', min(p, pneg(p), key=repr)), True


def _nonneg(x):
    return x[0] == 'trips' or x[0] == 'call' and x[1] == 'len'


def drop_dc(t):
    if t[0] != 'dt':
        return t
    a, b = drop_dc(t[2]), drop_dc(t[3])
    if a == DC or a == b:
        return b
    if b == DC:
        return a
    return ('dt', t[1], a, b)


def _untree(x):
    if x[0] == 'dt':
        return ('if', ('lit', x[1], True), _untree(x[2]), _untree(x[3]))
    return ('leaf', x)


def _boolean(x):
    return x in (TRUE, FALSE) or x[0] == 'dt' and _boolean(x[2]) and _boolean(x[3])


def _atoms(e):
    k = e[0]
    if k == 'lit':
        return {e[1]}
    if k == 'leaf':
        return set()
    if k == 'if':
        return _atoms(e[1]) | _atoms(e[2]) | _atoms(e[3])
    out = set()
    for x in e[1]:
        out |= _atoms(x)
    return out


def _simp(e, asg):
    k = e[0]
    if k == 'lit':
        v = asg.get(e[1])
        return e if v is None else ('leaf', c(v == e[2]))
    if k == 'leaf':
        return e
    if k == 'if':
        cd = _simp(e[1], asg)
        if cd == ('leaf', TRUE):
            return _simp(e[2], asg)
        if cd == ('leaf', FALSE):
            return _simp(e[3], asg)
        a, b = _simp(e[2], asg), _simp(e[3], asg)
        return a if a == b else ('if', cd, a, b)
    out = []
    stop = ('leaf', FALSE) if k == 'and' else ('leaf', TRUE)
    unit = ('leaf', TRUE) if k == 'and' else ('leaf', FALSE)
    for x in e[1]:
        y = _simp(x, asg)
        if y == stop:
            return stop
        if y != unit:
            out.append(y)
    return unit if not out else out[0] if len(out) == 1 else (k, tuple(out))


def _lin(p, q):
    """(sign, k) with q = sign*p + k, or None."""
    d = psub(q, p)
    if isint(d):
        return 1, d[1]
    d = padd(q, p)
    if isint(d):
        return -1, d[1]
    return None


def _const(p):
    """(term, constant) of an equation of a term with a constant."""
    d = dict(p[1]) if p[0] == 'poly' else {}
    if len(d) == 2 and all(len(m) == 1 for m in d) and sorted(d.values()) == [-1, 1]:
        (x,), (y,) = d
        if x[0] == 'c' and y[0] != 'c':
            return y, x
        if y[0] == 'c' and x[0] != 'c':
            return x, y
    return None, None


def infer1(known, a):
    """Truth of atom a under known atoms, where it follows; else None."""
    if a in known:
        return known[a]
    for b, v in known.items():
        if a[0] in ('ge0', 'eq0') and b[0] in ('ge0', 'eq0'):
            if v and a[0] == b[0] == 'eq0':
                (ta, ka), (tb, kb) = _const(a[1]), _const(b[1])
                if ta is not None and ta == tb and ka != kb:
                    return False
            r = _lin(b[1], a[1])
            if r is None:
                continue
            s, k = r
            lo = hi = None              # bounds of b's polynomial
            if b[0] == 'ge0':
                lo, hi = (0, None) if v else (None, -1)
            elif v:
                lo = hi = 0
            else:
                continue
            if s < 0:
                lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            lo, hi = (None if lo is None else lo + k), (None if hi is None else hi + k)
            if a[0] == 'ge0':
                if lo is not None and lo >= 0:
                    return True
                if hi is not None and hi < 0:
                    return False
            else:
                if lo == hi == 0:
                    return True
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return False
        elif v and a[0] == 'cmp' and b[0] == 'cmp' and a[1] == b[1] == 'is':
            ca, cb = [x for x in a[2:] if x[0] == 'c'], [x for x in b[2:] if x[0] == 'c']
            ta, tb = [x for x in a[2:] if x[0] != 'c'], [x for x in b[2:] if x[0] != 'c']
            if len(ca) == len(cb) == 1 and ta == tb and ca != cb:
                return False
        elif v and a[0] == b[0] == 'isinst' and a[1] == b[1] and a[2] != b[2]:
            basic = {'int', 'str', 'list', 'tuple', 'dict', 'set', 'float', 'bytes'}
            x, y = a[2], b[2]
            if x[0] == 'bi' and y[0] == 'bi' and x[1] in basic and y[1] in basic or {x[0], y[0]} == {'bi', 'class'}:
                return False
    return None


def infer(known, a):
    """Truth of atom a under known atoms: what follows from one of them, or from the linear bounds together."""
    v = infer1(known, a)
    if v is None and a[0] in ('ge0', 'eq0'):
        num = tuple((b, x) for b, x in known.items() if b[0] in ('ge0', 'eq0'))
        v = linear(num, a)
    return v


def _row(p, extra=0):
    d = dict(p[1]) if p[0] == 'poly' else {(): p[1]} if isint(p) else {(p,): 1}
    k = d.pop((), 0) + extra
    return d, k


@functools.lru_cache(100000)
def linear(known, a):
    """Truth of a linear condition under others (elimination over the rationals; None where that does not settle it)."""
    rows, apart = [], []
    def least(p, lo):                      # p >= lo
        d, k = _row(p)
        rows.append((d, k - lo))
    for b, v in known:
        if b[0] == 'ge0':
            least(b[1], 0) if v else least(pneg(b[1]), 1)
        elif v:
            least(b[1], 0)
            least(pneg(b[1]), 0)
        else:
            apart.append(b[1])
    goal = _row(a[1])[0]
    names = set(goal)
    rest = rows
    rows = []
    while True:                            # what is connected with the question
        new = [r for r in rest if names & set(r[0])]
        if not new:
            break
        rest = [r for r in rest if not names & set(r[0])]
        rows += new
        for r in new:
            names |= set(r[0])
    for m in names:
        if m and all(_nonneg(x) for x in m):
            rows.append(({m: 1}, 0))
    if len(rows) < 1 or len(names) > 8 or len(rows) > 24:
        return None
    def no(*more):
        return _infeasible(rows + [(d, k - lo) for (d, k), lo in more])
    up, down = _row(a[1]), _row(pneg(a[1]))
    for p in apart:                        # p >= 0 and p != 0 give p >= 1
        u, w = _row(p), _row(pneg(p))
        if set(u[0]) <= names:
            if no((w, 1)):
                rows.append((u[0], u[1] - 1))
            elif no((u, 1)):
                rows.append((w[0], w[1] - 1))
    if a[0] == 'ge0':
        return True if no((down, 1)) else False if no((up, 0)) else None
    if no((up, 0), (down, 0)):
        return False
    return True if no((up, 1)) and no((down, 1)) else None


def _infeasible(rows):
    """Whether d.x + k >= 0 for all rows has no solution (Fourier-Motzkin elimination)."""
    rows = list(rows)
    while True:
        nxt = {}
        for d, k in rows:
            d = {m: x for m, x in d.items() if x}
            if not d:
                if k < 0:
                    return True
                continue
            key = tuple(sorted(d.items(), key=repr))
            if key not in nxt or nxt[key] > k:
                nxt[key] = k
        if not nxt:
            return False
        rows = [(dict(d), k) for d, k in nxt.items()]
        if len(rows) > 120:
            return False
        count = {}
        for d, _ in rows:
            for m, x in d.items():
                u, w = count.get(m, (0, 0))
                count[m] = (u + 1, w) if x > 0 else (u, w + 1)
        m = min(count, key=lambda m: (count[m][0] * count[m][1], repr(m)))
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        negs = [r for r in rows if r[0].get(m, 0) < 0]
        out = [r for r in rows if not r[0].get(m)]
        for d, k in pos:
            for e, l in negs:
                x, y = -e[m], d[m]
                z = {q: x * d.get(q, 0) + y * e.get(q, 0) for q in set(d) | set(e)}
                out.append((z, x * k + y * l))
        rows = out


def _fixes(a):
    """{x: k} for x == k."""
    if a[0] == 'eq0':
        q = poly(a[1])
        ms = [x for x in q if x]
        if len(ms) == 1 and len(ms[0]) == 1 and abs(q[ms[0]]) == 1 and ms[0][0][0] in ('rec', 'mu', 'p', 'fin'):
            return {ms[0][0]: c(-q.get((), 0) * q[ms[0]])}
    return {}


def _inbranch(t, known):
    """A value under x == k, with k for x."""
    m = {}
    for a, v in known.items():
        if v:
            m.update(_fixes(a))
    return subst(t, m) if m and t[0] in ('poly',) + tuple(x[0] for x in m) else t


def _shannon(e, atoms, i, known, memo):
    e = _simp(e, known)
    if e[0] == 'leaf':
        return under(_inbranch(e[1], known), known)
    while i < len(atoms) and atoms[i] not in _atoms(e):
        i += 1
    a = atoms[i]
    v = infer(known, a)
    if v is None:
        q, s = settle(a, known)
        if q != a:
            v = q[1] if q[0] == 'c' else infer(known, q)
            v = v if v is None else v == s
    if v is not None:
        return _shannon(e, atoms, i + 1, {**known, a: v}, memo)
    hi = _shannon(e, atoms, i + 1, {**known, a: True}, memo)
    lo = _shannon(e, atoms, i + 1, {**known, a: False}, memo)
    if hi == lo:
        return hi
    if lo[0] == 'poly' and a[0] == 'eq0' and subst(lo, _fixes(a)) == hi:
        return lo
    q, s = settle(a, known)
    if q[0] == 'ge0' and s:
        a = q
    return ('dt', a, hi, lo)


# ---------------------------------------------------------------- observables
PROJ_IMPURE = True


def sqltext(x, prog=None):
    x = re.sub(r'\s+', ' ', x.strip().rstrip(';')).lower()
    x = re.sub(r' ?([(),;]) ?', r'\1', x)
    m = re.match(r'insert into (\w+)\(([\w,]+)\)values(.*)', x)
    if m and prog is not None and columns(prog).get(m.group(1)) == m.group(2).split(','):
        return f'insert into {m.group(1)} values{m.group(3)}'
    return x


def columns(prog):
    """Columns of the tables created by statements in the program text."""
    import ast
    from .script import schema
    if not hasattr(prog, 'tables'):
        prog.tables = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and 'CREATE' in n.value.upper():
                    r = schema(n.value)
                    if r:
                        prog.tables[r[0].lower()] = [a.lower() for a, _ in r[1]]
    return prog.tables


class Form:
    """Canonical observables of one function."""

    def __init__(self, res, ignore=(), only=()):
        self.c = Canon(res)
        self.only = only
        self.c.ignore = ignore
        self.r = res

    def ret(self):
        """Merged return value; several returns inside loops are kept as a sequence."""
        r, cn = self.r, self.c
        rets = list(r.rets)
        if r.falls is not None:
            rets.append((r.falls, NONE, None))
        if not rets:
            return ('never',)
        flat = all(f[0] in ('if', 'with', 'try', 'exit') for cx, v, _ in rets for f in cx)
        if flat:
            e = ('leaf', DC)
            for cx, v, _ in reversed(rets):
                cs = [f[1] for f in cx if f[0] == 'if' and f[1] not in cn.guards]
                tv = cn.tree(v, False)
                cd = ('and', tuple(cn.tree(x, True) for x in cs)) if cs else ('leaf', TRUE)
                e = ('if', cd, tv, e)
            return drop_dc(cn.build(e))
        out = []
        for cx, v, _ in rets:
            w = cn.where(cx)
            if w[1] != FALSE:
                out.append((w, cn.t(v)))
        # those outside loops exclude each other
        return ('rets', tuple(sorted((x for x in out if not x[0][0]), key=repr)) + tuple(x for x in out if x[0][0]))

    def yields(self):
        out = []
        for cx, v, n in self.r.yields:
            out.append(('yield', self.c.where(cx), self.c.t(v)))
        return ('bag', tuple(sorted(out, key=repr)))

    def effects(self, names=None):
        """Changes to anything not created here, and calls that have effects."""
        out = []
        for e in self.r.events:
            if self.only and not (e.kind == 'call' and (e.name.endswith(tuple(self.only)) or e.name == '.execute' and '.executemany' in self.only and arg(e.term, 1) is not None)):
                continue
            w = self.c.where(e.ctx)
            if e.kind in ('store', 'mut', 'del', 'setattr'):
                root = rootof(e.base)
                if root in self.r.born or root[0] == 'obj' or root[0] == 'call' and len(root) > 3 and root[1] in ALLOC:
                    continue
                if e.kind == 'store':
                    out.append(('E.store', w, self.c.t(e.base), self.c.t(e.index), self.c.t(e.value)))
                elif e.kind == 'setattr':
                    out.append(('E.setattr', w, self.c.t(e.base), e.name, self.c.t(e.value)))
                elif e.kind == 'mut':
                    out.append(('E.' + e.name, w, self.c.t(e.base), self.c.args(e.args)))
                else:
                    out.append(('E.del', w, self.c.t(e.base), self.c.t(e.index)))
            elif e.kind == 'call':
                if e.targets and any(self.r.vn.impure(g) for g in e.targets) or not e.targets and len(e.term) > 3 and e.name.startswith(('heapq.', 'random.', 'sqlite3.', '.exec', '.commit', '.close', 'sys.', 'print')) or e.name in ('print',):
                    if e.name == 'print':
                        continue
                    a = self.c.args(e.term[2])
                    name = e.name
                    if name == '.executemany':
                        d = dict(a)
                        if d.get(1, ())[:2] == ('comp', 'seq'):
                            # the statement once per row
                            _, _, ns, elt, cd = d[1]
                            name, w = '.execute', (w[0] + ns, cd if not w[1] else w[1] if not cd else self.c.build(('and', (_untree(w[1]), _untree(cd)))), w[2])
                            a = tuple((k, elt if k == 1 else v) for k, v in a)
                    if '.exec' in e.name:
                        a = tuple((k, ('c', sqltext(v[1], self.r.vn.p)) if v[0] == 'c' and isinstance(v[1], str) else v) for k, v in a)
                    x = ('E.call', w, name.split('<locals>.')[-1], a)
                    if not (name.startswith('sqlite3.register') and x in out):      # twice is once
                        out.append(x)
            elif e.kind in ('break',):
                out.append(('E.' + e.kind, w))
        return ('bag', tuple(sorted(out, key=repr)))

    def reports(self):
        """What is printed while walking the braids of a bucket, apart from the wording."""
        out = []
        for e in self.r.events:
            if e.kind == 'call' and e.name == 'print' and e.loops():
                lo, cd, ex = self.c.where(e.ctx)
                if 'bucket_braids' not in repr(lo):
                    continue
                parts = set()
                for k, v in self.c.args(e.term[2]):
                    for y in v[1] if v[0] in ('fstr', 'join', 'seq') and len(v) > 1 and isinstance(v[1], tuple) else (v,):
                        if isinstance(y, tuple) and y and y[0] != 'c':
                            parts.add(y)
                out.append(('E.print', (lo, cd, ex), ('bag', tuple(sorted(parts, key=repr)))))
        return ('bag', tuple(sorted(out, key=repr)))

    def halts(self):
        out = []
        for e in self.r.events:
            if e.kind == 'break' and len(e.loops()) == 1 or e.kind == 'return' and len(e.loops()) == 1 and e.func is self.r.vn.f:
                lo, cd, ex = self.c.where(e.ctx)
                out.append(('E.stop', (lo, cd, ex)))
        return ('bag', tuple(sorted(out, key=repr)))

    def news(self):
        out = set()
        for e in self.r.events:
            if e.kind == 'new' and e.name.endswith(tuple(self.only)):
                out.add(self.c.t(e.term))
        return ('bag', tuple(sorted(out, key=repr)))

    def options(self):
        """Command-line options: name, type, action and default (not the help text)."""
        out = []
        for e in self.r.events:
            if e.kind == 'call' and e.name.endswith('.add_argument'):
                a = [(k, v) for k, v in self.c.args(e.term[2]) if k not in ('self', 'help', 'metavar')]
                out.append(('E.option', self.c.where(e.ctx), tuple(v for k, v in a if isinstance(k, int)), tuple((k, v) for k, v in a if not isinstance(k, int))))
        dash = [x for x in out if repr(x[2]).find("'-") >= 0]
        return ('seq', tuple(x for x in out if x not in dash) + tuple(sorted(dash, key=repr)))

    def refuse(self):
        """When an exception is raised or the operation declined."""
        cn = self.c
        alts = []
        loops = []
        from .vn import conj
        for e in self.r.events:
            if e.kind == 'raise':
                fr = e.ctx
            elif e.kind == 'return' and e.value == ('bi', 'NotImplemented'):
                fr = e.ctx
            else:
                continue
            if any(f[0] in ('except', 'finally') for f in fr):
                continue
            x = ('and', tuple(f[1] for f in fr if f[0] == 'if'))
            # nested loops quantify what follows them
            cur = ()
            t = None
            for f in reversed(fr):
                if f[0] == 'if':
                    cur = (f[1],) + cur
                elif f[0] == 'loop':
                    cur = (('exists', f[1], conj(list(cur))),)
            alts.append(conj(list(cur)))
        if not alts:
            return FALSE
        return cn.cond(('or', tuple(alts)) if len(alts) > 1 else alts[0])


# ---------------------------------------------------------------- distance
def size(t):
    if not isinstance(t, tuple):
        return 0 if t in (None, ()) else 1
    return sum(size(x) for x in t) + (0 if t and isinstance(t[0], tuple) else 0)


def unknown(t):
    return any(s[0] in UNKNOWN for s in subterms(t))


SHARED = set()
FS = {}


def fsize(t):
    """Size, counting what both sides have in common as one."""
    if not isinstance(t, tuple):
        return 0 if t in (None, ()) else 1
    if not t:
        return 0
    if t in SHARED:
        return 1
    n = FS.get(t)
    if n is None:
        n = FS[t] = sum(fsize(x) for x in t)
    return n


def share(pairs):
    SHARED.clear()
    FS.clear()
    a, b = set(), set()
    for x, y in pairs:
        _parts(x, a)
        _parts(y, b)
    SHARED.update(a & b)


def _parts(t, out):
    todo = [t]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple) and t and t not in out:
            out.add(t)
            todo += t


FAR = 99
CAP = 8
NOED = frozenset()


def dist(a, b):
    return judge([(a, b)])[0]


def vocabulary(t):
    """What a form is made of: operations, attributes, names of things outside the function."""
    out = set()
    for x in subterms(t):
        k = x[0]
        if k in ('call', 'new', 'glob', 'class', 'func', 'ext', 'bi') and len(x) > 1 and isinstance(x[1], str):
            out.add(('name', x[1].split('.')[-1]))
        elif k == 'attr':
            out.add(('attr', x[2]))
        elif k in ('op', 'cmp') and isinstance(x[1], str):
            out.add((k, x[1]))
        elif k.startswith('E.'):
            out.add(k)
        elif k in ('fin', 'mu', 'comp', 'built', 'lambda', 'last', 'trips', 'genfn', 'exists', 'star', 'slice') or k in UNKNOWN:
            out.add(k)
    return out


def judge(pairs):
    """(number of local edits, edits) between the forms found and those specified; FAR when the shape is another one.

    A large differing part counts as one edit only if it is made of what the specification is made of (a dropped step, another
    variable) and leaves most of the form untouched: anything else may be another way of computing the same."""
    tot, es, extra = 0, NOED, 0
    share(pairs)
    voc = None
    for a, b in pairs:
        e = _ed(a, b, 0, {})
        whole = size(a) + size(b)
        for x, y in e:
            if isinstance(x, str) and isinstance(y, str) and own(x) != own(y):
                return FAR, e
            if not isinstance(x, tuple) or not isinstance(y, tuple):
                continue
            big = fsize(x) + fsize(y)
            if (x, y) == (a, b) and whole > 80:
                return FAR, e
            if x[:1] == ('c',):
                continue
            if voc is None:
                voc = set().union(*[vocabulary(q) for _, q in pairs])
            if x and not y and foreign(x, voc) and any(not u and v for u, v in e):
                return FAR, e           # this instead of that
            if x[:1] == y[:1] == ('call',) and own(x[1]) != own(y[1]):
                return FAR, e
            if x[:1] == ('op',) and y[:1] == ('call',) and own(y[1]) or y[:1] == ('op',) and x[:1] == ('call',) and own(x[1]) or x[:1] == ('idx',) and y[:1] == ('seq',):
                return FAR, e
            if made(x) and not made(y):
                return FAR, e           # what a constructor makes of its arguments
            if x and y and foreign(x, voc):
                # made with something the specification does not know: another way, unless it stands for what was there
                if y == HOLE or x[0] == y[0]:
                    extra += 1
                else:
                    return FAR, e
            if any(z[0] in UNKNOWN for z in subterms(x)) or any(z[0] in UNKNOWN for z in subterms(y)):
                return FAR, e
            if big <= SMALL:
                continue
            if not vocabulary(x) <= voc or x and y and (big > 0.5 * whole or min(fsize(x), fsize(y)) > SMALL):
                return FAR, e
        es = es | e
    return len(es) + extra, es


def made(x):
    return any(z[0] == 'attr' and isinstance(z[1], tuple) and z[1][:1] in (('new',), ('call',)) for z in subterms(x))


def own(name):
    """Name of a function of the project."""
    return name[:1] != '.' and not name.startswith(('numpy.', 'itertools.', 'functools.', 'operator.', 'math.', 'collections.', 'random.')) and not hasattr(builtins, name)


def foreign(x, voc):
    return any(v[0] in ('name', 'attr') and v not in voc for v in vocabulary(x) if isinstance(v, tuple))


SMALL = 16


def _weight(e):
    return sum(1 + (fsize(x) + fsize(y)) // 10 if isinstance(x, tuple) and isinstance(y, tuple) else 1 for x, y in e)


def _join(*es):
    out = NOED
    for e in es:
        if e is None:
            return None
        out = out | e
        if len(out) > CAP:
            return None
    return out


def _one(a, b):
    return frozenset([(a, b)])


def _ed(a, b, d, memo):
    if a == b:
        return NOED
    key = (a, b)
    if key in memo:
        return memo[key]
    memo[key] = _one(a, b)
    r = _ed1(a, b, d, memo)
    if r is None:
        r = _one(a, b)
    memo[key] = r
    return r


def _ed1(a, b, d, memo):
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return _one(a, b)
    if d > 50:
        return None
    if not a or not b:
        return _one(a, b) if fsize(a) + fsize(b) <= 40 else None
    ha, hb = a[0], b[0]
    if ha == 'dt' or hb == 'dt':
        return _ddt(a, b, d, memo)
    if isinstance(ha, str) != isinstance(hb, str):
        return _one(a, b) if fsize(a) + fsize(b) <= 8 else None
    if not isinstance(ha, str):
        return _dseq(a, b, d, memo)
    if ha != hb and ha in LOOPS and hb in LOOPS or ha == hb == 'while' and (a[1] == TRUE) != (b[1] == TRUE) or ha != hb and ha in BUILT and hb in BUILT or \
            ha == hb == 'genfn' and (a[3] == ('bag', ())) != (b[3] == ('bag', ())):
        return _one(('opaque', a), ('opaque', b))       # another kind of loop
    best = None
    if ha == hb == 'bag':
        best = _bag(a[1], b[1], d, memo)
    elif ha == 'poly' or hb == 'poly':
        x = b if ha == 'poly' else a
        best = _one(a, b) if x[0] == 'c' and not isint(x) else _dpoly(a, b, d, memo)
    elif ha == hb == 'eq0':
        best = _eq0(a, b, d, memo)
    elif ha == hb and ha in ('min', 'max', 'set'):
        best = _bag(a[1], b[1], d, memo)
    elif ha == hb == 'call' and isinstance(a[1], str) and isinstance(b[1], str) and a[1] != b[1] and (a[1][0] == '.' or b[1][0] == '.') and a[1].split('.')[-1] == b[1].split('.')[-1]:
        # the same method, its receiver typed on one side only
        x, y = dict(a[2]), dict(b[2])
        if x.get('self') != y.get('self'):
            return _ed(x.get('self', ()), y.get('self', ()), d + 1, memo)
        xs, ys = [v for k, v in a[2] if k != 'self'], [v for k, v in b[2] if k != 'self']
        return NOED if xs == ys or all(v in ys for v in xs) and a[1][0] == '.' or all(v in xs for v in ys) and b[1][0] == '.' else None
    elif ha == hb and ha in ('call', 'new'):
        best = _join(NOED if a[1] == b[1] else _one(a[1], b[1]), _dargs(a[2], b[2], d, memo))
    elif ha == hb == 'cat':
        best = _dseq(a[1], b[1], d, memo)
    elif ha == hb and len(a) == len(b):
        best = _join(*[_ed(x, y, d + 1, memo) for x, y in zip(a[1:], b[1:])])
    if best is not None and _weight(best) <= 1:
        return best
    if fsize(b) > 1 and _sub(a, b):
        return _one(_hole(a, b), HOLE)
    if fsize(a) > 1 and _sub(b, a):
        return _one(HOLE, _hole(b, a))
    if fsize(a) + fsize(b) <= 8:
        return _one(a, b)
    if best is not None and len(best) == 1:
        return best
    return best


def _eq0(a, b, d, memo):
    """p == 0 and q == 0, either of them written the other way round."""
    es = [e for e in (_ed(a[1], b[1], d + 1, memo), _ed(a[1], pneg(b[1]), d + 1, memo)) if e is not None]
    return min(es, key=_weight) if es else None


def _sub(big, small, depth=3):
    """small occurs within big at little depth (a wrapper was dropped or added)."""
    if big == small:
        return True
    if depth == 0 or not isinstance(big, tuple):
        return False
    return any(_sub(x, small, depth - 1) for x in big if isinstance(x, tuple))


HOLE = ('hole',)
LOOPS = ('for', 'forstep', 'while')
BUILT = ('comp', 'built', 'fin', 'genfn', 'cat')


def _hole(big, small, depth=3):
    """big with small left out of it: the wrapper that was dropped or added."""
    if big == small:
        return HOLE
    if depth == 0 or not isinstance(big, tuple):
        return big
    return tuple(_hole(x, small, depth - 1) if isinstance(x, tuple) else x for x in big)


def _bag(xs, ys, d, memo):
    xs, ys = list(xs), list(ys)
    for x in list(xs):
        if x in ys:
            xs.remove(x)
            ys.remove(x)
    if len(xs) > 10 or len(ys) > 10:
        return None
    tot = NOED
    cand = []
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            e = _ed(x, y, d + 1, memo)
            if e is not None:
                cand.append((_weight(e), i, j, e))
    cand.sort(key=lambda z: z[:3])
    ui, uj = set(), set()
    for n, i, j, e in cand:
        if i in ui or j in uj or n > 12 and n > (fsize(xs[i]) + fsize(ys[j])) // 12:
            continue
        ui.add(i)
        uj.add(j)
        tot = _join(tot, e)
    for x in [x for i, x in enumerate(xs) if i not in ui]:
        tot = _join(tot, _one(x, ()))
    for y in [y for j, y in enumerate(ys) if j not in uj]:
        tot = _join(tot, _one((), y))
    return tot


def _dseq(xs, ys, d, memo):
    """Edits of two sequences; small insertions and deletions allowed."""
    xs, ys = list(xs), list(ys)
    if len(xs) == len(ys):
        return _join(*[_ed(x, y, d + 1, memo) for x, y in zip(xs, ys)])
    while xs and ys and xs[0] == ys[0]:
        xs.pop(0)
        ys.pop(0)
    while xs and ys and xs[-1] == ys[-1]:
        xs.pop()
        ys.pop()
    return _bag(xs, ys, d, memo)


def _dargs(a, b, d, memo):
    try:
        da, db = dict(a), dict(b)
    except (ValueError, TypeError):
        return _dseq(a, b, d, memo)
    es = []
    for k in sorted(set(da) | set(db), key=str):
        if k in da and k in db:
            es.append(_ed(da[k], db[k], d + 1, memo))
        else:
            es.append(_one((k, da.get(k, ())), (k, db.get(k, ()))))
    return _join(*es)


def _dpoly(a, b, d, memo):
    pa, pb = poly(a), poly(b)
    xs = [(m, k) for m, k in pa.items() if pb.get(m) != k]
    ys = [(m, k) for m, k in pb.items() if pa.get(m) != k]
    tot = NOED
    for m, k in list(xs):
        for n, l in list(ys):
            if m == n:
                tot = _join(tot, _one((m, k), (n, l)))
                xs.remove((m, k))
                ys.remove((n, l))
    if tot is None or len(xs) > 8 or len(ys) > 8:
        return None
    while xs and ys:
        best = None
        for x in xs:
            for y in ys:
                e = _bag(x[0], y[0], d, memo) if x[0] and y[0] else None
                if e is not None and x[1] != y[1]:
                    e = _join(e, _one(x[1], y[1]))
                if e is not None and _weight(e) <= 6 and (best is None or _weight(e) < _weight(best[0])):
                    best = (e, x, y)
        if best is None:
            break
        tot = _join(tot, best[0])
        xs.remove(best[1])
        ys.remove(best[2])
    for x in xs:
        tot = _join(tot, _one(x, ()))
    for y in ys:
        tot = _join(tot, _one((), y))
    return tot


def dtatoms(t, out=None):
    out = {} if out is None else out
    if t[0] == 'dt':
        out[t[1]] = 1
        dtatoms(t[2], out)
        dtatoms(t[3], out)
    return out


def _evalpairs(a, b, pairs, asg):
    """Pairs of leaves reached together."""
    while a[0] == 'dt' and a[1] in asg:
        a = a[2] if asg[a[1]] else a[3]
    while b[0] == 'dt' and b[1] in asg:
        b = b[2] if asg[b[1]] else b[3]
    if a == b and a[0] != 'dt':
        return
    if a[0] != 'dt' and b[0] != 'dt':
        pairs.add((a, b))
        return
    at = a[1] if a[0] == 'dt' else b[1]
    if len(asg) > 12:
        return
    v = infer(asg, at)
    for x in ((True, False) if v is None else (v,)):
        _evalpairs(a, b, pairs, {**asg, at: x})


def leaves(t, out=None):
    out = set() if out is None else out
    if t[0] == 'dt':
        leaves(t[2], out)
        leaves(t[3], out)
    else:
        out.add(t)
    return out


def rename(t, m):
    if t[0] != 'dt':
        return t
    y, a, b = m.get(t[1], t[1]), rename(t[2], m), rename(t[3], m)
    return ('dt', y[1], b, a) if y[0] == 'neg' else ('dt', y, a, b)


def _ddt(a, b, d, memo):
    if a[0] == 'rawcond' or b[0] == 'rawcond':
        return None
    A, B = set(dtatoms(a)), set(dtatoms(b))
    pairs = set()
    _evalpairs(a, b, pairs, {})
    if not pairs:
        return NOED
    if by_invariant(A - B, B - A):
        return _one(('opaque', 'invariant'), ())
    # conditions about the same quantities: where they disagree the forms differ
    if alike(A - B, B) and alike(B - A, A):
        la, lb = leaves(a), leaves(b)
        if all(x in lb and y in la for x, y in pairs) and ('dontcare',) not in la | lb:
            return _one('logic', (a, b))
    oa, ob = sorted(A - B, key=repr), sorted(B - A, key=repr)
    if len(oa) > 8 or len(ob) > 8:
        return None
    tot, m = NOED, {}
    # unmatched atoms are paired with their nearest counterpart
    cand = []
    for x in oa:
        for y in ob:
            e = _ed(x, y, d + 1, memo)
            if e is not None and _weight(e) <= 6:
                cand.append((_weight(e), repr(x), repr(y), x, y, e, False))
            if x[0] == y[0] == 'ge0':      # the same bound from the other side
                e = _ed(x[1], psub(pneg(y[1]), c(1)), d + 1, memo)
                if e is not None and _weight(e) <= 6:
                    cand.append((_weight(e), repr(x), repr(y), x, y, e, True))
    cand.sort(key=lambda z: z[:3])
    used = set()
    for n, _, _, x, y, e, flip in cand:
        if x in m or y in used:
            continue
        m[x] = ('neg', y) if flip else y
        used.add(y)
        tot = _join(tot, e)
        if tot is None:
            return None
    oa, ob = [x for x in oa if x not in m], [y for y in ob if y not in used]
    a2 = reduce_dt(rename(a, m)) if m else a
    for x in oa:
        tot = _join(tot, _one(x, ()))
    for y in ob:
        tot = _join(tot, _one((), y))
    if tot is None:
        return None
    pairs = set()
    _evalpairs(a2, b, pairs, {})
    la, lb = leaves(a2), leaves(b)
    if pairs and la | lb <= {TRUE, FALSE}:
        return tot if oa or ob else _join(tot, _one('logic', (a2, b)))
    swapped = False
    for x, y in sorted(pairs, key=repr):
        if (oa or ob) and x in lb and y in la:
            continue
        e = _ed(x, y, d + 1, memo)
        if x in lb and y in la and (e is None or _weight(e) > 1):
            if not swapped:
                tot = _join(tot, _one('branch', (a2, b)))
            swapped = True
            continue
        if e is None and (x in lb or y in la):
            e = _one(x, y)
        tot = _join(tot, e)
    return tot


def by_invariant(xs, ys):
    """The quantity a loop carries is compared with the same bound, here for equality and there for order: they agree
    when the loop never passes the bound, which is not settled here."""
    for p in xs:
        for q in ys:
            if {p[0], q[0]} == {'eq0', 'ge0'} and kinds(p) & {'mu', 'rec', 'fin'} and alike((q,), (p,)):
                e, g = (p, q) if p[0] == 'eq0' else (q, p)
                bounds = e[1], pneg(e[1]), psub(e[1], c(1)), psub(pneg(e[1]), c(1))      # ... at the very same bound
                if any(g[1] == x for x in bounds):
                    return True
    return False


def kinds(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            out.add(t[0])
        for x in t:
            kinds(x, out)
    return out


def alike(new, old):
    """Linear conditions each about the same combination of quantities as one of the others."""
    def key(a):
        d = _row(a[1])[0]
        lead = d[min(d, key=repr)] if d else 1
        return tuple(sorted(((m, x if lead > 0 else -x) for m, x in d.items()), key=repr))
    have = {key(a) for a in old if a[0] in ('ge0', 'eq0')}
    return all(a[0] in ('ge0', 'eq0') and key(a) in have for a in new)


def reduce_dt(t):
    if t[0] != 'dt':
        return t
    e = _untree(t)
    return _shannon(e, sorted(_atoms(e), key=repr), 0, {}, {})


def explain(a, b):
    """The smallest differing place, in words."""
    a, b = _focus(a, b)
    return f'got {words(a)[:180]}; expected {words(b)[:180]}'


def words(t, d=0):
    """Readable form of a canonical term."""
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return '()'
    if d > 7:
        return '…'
    w = lambda x: words(x, d + 1)
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(w(x) for x in t) + ')'
    try:
        if k == 'c':
            return repr(t[1])
        if k in ('p', 'glob', 'free', 'bi', 'func', 'class', 'ext'):
            return str(t[1]).split('.')[-1]
        if k == 'dt':
            if t[2:] == (TRUE, FALSE):
                return w(t[1])
            if t[2:] == (FALSE, TRUE):
                return f'not ({w(t[1])})'
            return f'({w(t[2])} if {w(t[1])} else {w(t[3])})'
        if k == 'true':
            return w(t[1])
        if k == 'attr':
            return f'{w(t[1])}.{t[2]}'
        if k == 'seq':
            return '[' + ', '.join(w(x) for x in t[1]) + ']'
        if k == 'iv':
            return 'i' + (str(t[1][-1]) if t[1][-1] else '')
        if k == 'comp':
            return f'[{w(t[3])} for i in {", ".join(w(x[1]) if len(x) > 1 else "?" for x in t[2])}' + (f' if {w(t[4])}' if t[4] else '') + ']'
        if k in ('call', 'new'):
            return f'{str(t[1]).split(".")[-1]}(' + ', '.join(w(a) if isinstance(n, int) or n == 'self' else f'{n}={w(a)}' for n, a in t[2]) + ')'
        if k in ('poly', 'ge0', 'eq0', 'cmp', 'op', 'idx', 'slice'):
            if k == 'poly':
                return ' + '.join((str(n) + '*' if n != 1 else '') + '*'.join(w(a) for a in m) if m else str(n) for m, n in t[1])
            return {'ge0': lambda: f'{w(t[1])} >= 0', 'eq0': lambda: f'{w(t[1])} == 0', 'cmp': lambda: f'{w(t[2])} {t[1]} {w(t[3])}', 'op': lambda: f'({w(t[2])} {t[1]} {w(t[3])})', 'idx': lambda: f'{w(t[1])}[{w(t[2])}]',
                 'slice': lambda: ':'.join('' if x == NONE else w(x) for x in t[1:])}[k]()
        if k == 'exists':
            return f'some i in {", ".join(w(x[1]) for x in t[1])} has {w(t[2])}'
        if k == 'bag':
            return '{' + '; '.join(w(x) for x in t[1]) + '}'
        if k.startswith('E.') or k == 'yield':
            lo, cd, ex = t[1]
            return f'{k[2:] if k[0] == "E" else k} ' + ' '.join(w(x) if isinstance(x, tuple) else str(x) for x in t[2:]) + (f' when {w(cd)}' if cd else '')
    except Exception:
        pass
    return k + '(' + ', '.join(w(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def _focus(a, b, d=0):
    if isinstance(a, tuple) and isinstance(b, tuple) and d < 60 and a and b and a[0] == b[0] == 'bag':
        xs, ys = [x for x in a[1] if x not in b[1]], [y for y in b[1] if y not in a[1]]
        if len(xs) == len(ys) == 1:
            return _focus(xs[0], ys[0], d + 1)
        return ('bag', tuple(xs)), ('bag', tuple(ys))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and d < 60 and a and b and a[0] != 'poly':
        ds = [(x, y) for x, y in zip(a, b) if x != y]
        if len(ds) == 1 and isinstance(ds[0][0], tuple) and isinstance(ds[0][1], tuple) and ds[0][0] and ds[0][1]:
            return _focus(*ds[0], d + 1)
    return a, b
