"""Whether two canonical forms that are written differently are the same under what holds whenever the specification applies:
its own preconditions, and the invariants the constructors of the classes establish."""
from __future__ import annotations
from .vn import c, isint, poly, psub, subst, TRUE, FALSE
from .canon import infer, settle, under, DC, _simp

STEPS = 4000


def facts(refuse, extra=()):
    """{atom: truth} of what holds where a definition does not refuse."""
    known = dict(extra)
    t = refuse
    while isinstance(t, tuple) and t and t[0] == 'dt':
        if t[2] == TRUE:
            known[t[1]] = False
            t = t[3]
        elif t[3] == TRUE:
            known[t[1]] = True
            t = t[2]
        else:
            break
    return known


def equations(known):
    """Replacements for what is known to be equal."""
    m = {}
    for _ in range(3):
        for a, v in known.items():
            if not v or a[0] != 'eq0':
                continue
            q = poly(subst(a[1], m))
            k = q.get((), 0)
            ms = [x for x in q if x]
            # the greatest monomial of one factor with coefficient 1 is expressed by the others
            one = sorted((x for x in ms if len(x) == 1 and abs(q[x]) == 1 and x[0] not in m), key=lambda x: (len(repr(x)), repr(x)))
            if not one:
                continue
            x = one[-1]
            s = q[x]
            rest = c(-k * s)
            from .vn import padd, pmul
            for y in ms:
                if y != x:
                    t = c(-q[y] * s)
                    for z in y:
                        t = pmul(t, z)
                    rest = padd(rest, t)
            if x[0] not in _all(rest):
                m = {y: subst(z, {x[0]: rest}) for y, z in m.items()}
                m[x[0]] = rest
    return m


def _all(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            out.add(x)
            todo += x
    return out


def tidy(t):
    """Extremes of equal things."""
    if not isinstance(t, tuple):
        return t
    t = tuple(tidy(x) for x in t)
    if len(t) == 2 and t[0] in ('min', 'max') and isinstance(t[1], tuple) and t[1] and all(x == t[1][0] for x in t[1]):
        return t[1][0]
    return t


def bounds(t):
    """Lengths walked in parallel: the members of the least of several plain lengths."""
    if t[:1] == ('min',) and len(t) == 2 and len(t[1]) > 1:
        return t[1]
    return None


def plainlen(t):
    return isinstance(t, tuple) and t[:2] == ('call', 'len')


class Equal:
    def __init__(self):
        self.n = 0

    def eq(self, a, b, known):
        self.n += 1
        if self.n > STEPS:
            return False
        if a == b:
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return False
        if DC in (a, b):
            return True
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x[:1] == ('dt',):
                q = x[1]
                v = infer(known, q) if q[0] != 'c' else q[1]
                if v is None:
                    p, s = settle(q, known)
                    if p != q:
                        v = p[1] if p[0] == 'c' else infer(known, p)
                        v = v if v is None else v == s
                for w, z in ((True, x[2]), (False, x[3])):
                    if v is not None and v != w:
                        continue
                    if not self.eq(z, y, {**known, q: w}):
                        return False
                return True
        m = equations(known)
        if m:
            x, y = tidy(subst(a, m)), tidy(subst(b, m))
            if x == y:
                return True
            if (x, y) != (a, b):
                a, b = x, y
                if not isinstance(a, tuple) or not isinstance(b, tuple):
                    return False
        for x, y in ((a, b), (b, a)):
            k = bounds(x)
            if k and y in k and all(plainlen(z) for z in k):
                return True
        if len(a) != len(b):
            return False
        if a[:1] != b[:1] or a[:1] in (('poly',), ('c',)):
            return False
        return all(self.eq(x, y, known) for x, y in zip(a, b))


def walked(a, b):
    """Both forms with the least of several plain lengths, where one walks several sequences together, written as the length
    of the one whose members the other walks."""
    for x, y in ((a, b), (b, a)):
        his = {t[1] for t in _all(y) if t[:1] == ('for',) and len(t) == 3}
        for t in sorted((t for t in _all(x) if t[:1] == ('for',) and len(t) == 3 and bounds(t[1])), key=lambda t: len(repr(t))):
            k = bounds(t[1])
            m = [z for z in k if z in his]
            if all(plainlen(z) for z in k) and len(m) == 1:
                a, b = subst(a, {t[1]: m[0]}), subst(b, {t[1]: m[0]})
    return a, b


def same(a, b, known):
    a, b = walked(a, b)
    return Equal().eq(a, b, known)
