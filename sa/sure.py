"""Types that can be trusted: read off annotations, constructors and literals only.

`Sure(an).types(f, expr)` is a set of types covering every value `expr` can have, or None when that is not known
from reliable sources.  Used to keep type-based alarms to definite ones.
"""
from __future__ import annotations
import ast
from .front import dotted, walk_local
from .flow import local_names, T, elem_types, dict_val_types

PLAIN = {'int', 'str', 'list', 'tuple', 'dict', 'set', 'bool', 'float', 'bytes', 'tup', 'seq', 'frozenset', 'inst', 'class', 'ndarray', 'rand', 'range', 'none'}


class Sure:
    def __init__(self, an):
        self.an, self.p = an, an.p
        self.memo = {}
        self.tested_ = {}

    def tested(self, f, name):
        """Is the type of a local tested (isinstance, match, hasattr, `is None`)?"""
        if f not in self.tested_:
            out = set()
            for n in walk_local(f.node):
                if isinstance(n, ast.Call) and dotted(n.func) in ('isinstance', 'hasattr', 'type', 'callable', 'issubclass', 'getattr'):
                    out |= {x.id for a in n.args for x in [a, *getattr(a, 'elts', ())] if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
                    out |= {x.id for x in [n.left, *n.comparators] if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Match):
                    out |= {x.id for x in [n.subject, *getattr(n.subject, 'elts', ())] if isinstance(x, ast.Name)}
            self.tested_[f] = out
        return name in self.tested_[f]

    def types(self, f, e, depth=0):
        k = (f, e)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None        # recursion: unknown
        r = self._types(f, e, depth) if depth < 12 else None
        if r is not None and (not r or any(t[0] not in PLAIN for t in r)):
            r = None
        if depth < 12:
            self.memo[k] = r
        return r

    def clean(self, ty):
        ty = frozenset(ty)
        return ty if ty and all(t[0] in PLAIN for t in ty) else None

    def _types(self, f, e, d):
        if isinstance(e, ast.Constant):
            v = e.value
            return T('none') if v is None else T(type(v).__name__)
        if isinstance(e, (ast.List, ast.ListComp)):
            return T('list')
        if isinstance(e, ast.Tuple):
            return T('tuple')
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return T('dict')
        if isinstance(e, (ast.Set, ast.SetComp)):
            return T('set')
        if isinstance(e, ast.JoinedStr):
            return T('str')
        if isinstance(e, ast.IfExp):
            a, b = self.types(f, e.body, d + 1), self.types(f, e.orelse, d + 1)
            return a | b if a and b else None
        if isinstance(e, ast.Name):
            return self.name(f, e.id, d)
        if isinstance(e, ast.Attribute):
            r = self.types(f, e.value, d + 1)
            if not r or not all(t[0] == 'inst' for t in r):
                return None
            out = set()
            for t in r:
                k = next((k for k in t[1].mro() if e.attr in k.attrs and k.attrs[e.attr][0] is not None), None)
                if k is not None:
                    ty = self.clean(self.an.ann(k.mod, k.attrs[e.attr][0], k))
                else:
                    m = t[1].find_method(e.attr)
                    ty = self.result(m, d) if m is not None and m.property else None
                    said = [(g, n) for k in t[1].mro() for g, n in k.inst_attrs.get(e.attr, ()) if isinstance(n, ast.AnnAssign)]
                    if m is None and said:
                        ty = self.clean(frozenset().union(*[self.an.ann(g.mod, n.annotation, g.cls) for g, n in said]))
                if not ty:
                    return None
                out |= ty
            return out
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            r = self.types(f, e.value, d + 1)
            return self.inside(r) if r and all(t[0] in ('dict', 'list', 'tuple', 'seq') for t in r) and not any(isinstance(x, ast.Slice) for x in ast.walk(e.slice)) else None
        if isinstance(e, ast.BinOp):
            a, b = self.types(f, e.left, d + 1), self.types(f, e.right, d + 1)
            if a and b and a <= T('int', 'bool') and b <= T('int', 'bool') and not isinstance(e.op, (ast.Div, ast.Pow)):
                return T('int')
            if a and b and a == b and isinstance(e.op, ast.Add) and a in (T('list'), T('str'), T('tuple')):
                return a
            return None
        if isinstance(e, ast.Call):
            fn = dotted(e.func)
            if fn in ('int', 'len', 'str', 'list', 'dict', 'set', 'tuple', 'sorted', 'bool', 'float', 'range', 'frozenset') and fn not in local_names(f) and self.p.lookup(f.mod, fn) is None:
                return T({'len': 'int', 'sorted': 'list'}.get(fn, fn))
            v = self.an.vals.get(e.func)
            if v is None or not v.types:
                return None
            if isinstance(e.func, ast.Attribute):
                base = self.types(f, e.func.value, d + 1)
                if base is None and not all(t[0] in ('func', 'class') for t in v.types):
                    return None
                if base is not None and not all(t[0] in ('inst', 'class') for t in base):
                    return None
            out = set()
            for t in v.types:
                if t[0] == 'class':
                    out.add(('inst', t[1]))
                elif t[0] in ('func', 'bound'):
                    r = self.result(t[1], d)
                    if not r:
                        return None
                    out |= r
                else:
                    return None
            return out
        return None

    def inside(self, ty):
        """What containers of these types hold, as far as their annotations say."""
        out = set()
        for t in ty:
            got = dict_val_types([t]) if t[0] == 'dict' else elem_types([t])
            if not got:
                return None
            out |= got
        return self.clean(out)

    def result(self, g, d):
        """What g returns, by its annotation."""
        if g.returns is None or g.is_gen:
            return None
        if g.returns is not None and isinstance(g.returns, ast.Name) and g.returns.id == 'Self':
            return None
        return self.clean(self.an.ann(g.mod, g.returns, g.cls))

    def name(self, f, x, d):
        if self.tested(f, x):
            return None
        if x not in f.allparams() and x not in local_names(f):
            r = self.p.lookup(f.mod, x) if f.parent is None else None
            return frozenset([('class', r[1])]) if r and r[0] == 'class' else None
        out = set()
        if x in f.allparams():
            if x == f.receiver() and f.cls is not None:
                out.add(('inst', f.cls) if f.kind == 'method' else ('class', f.cls))
            else:
                a = f.annot.get(x)
                ty = self.clean(self.an.ann(f.mod, a, f.cls)) if a is not None and x not in (f.vararg, f.kwarg) else None
                if not ty:
                    return None
                out |= ty
        binds = 0
        for n in walk_local(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == x:
                        binds += 1
                        ty = self.types(f, n.value, d + 1)
                        if not ty:
                            return None
                        out |= ty
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == x:
                binds += 1
                ty = self.clean(self.an.ann(f.mod, n.annotation, f.cls))
                if not ty:
                    return None
                out |= ty
            elif isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == x:
                binds += 1
                ty = self.types(f, n.iter, d + 1)
                ty = self.inside(ty) if ty and all(t[0] in ('list', 'tuple', 'seq') for t in ty) else None
                if not ty:
                    return None
                out |= ty
        stores = sum(1 for n in walk_local(f.node) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, (ast.Store, ast.Del)))
        if stores != binds:
            return None
        return out or None
