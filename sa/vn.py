"""E2: flow-sensitive value numbering.

Every function body is interpreted once over an abstract domain of terms (global value numbers): names disappear, integer
arithmetic is kept as polynomials over atoms, helpers outside the public vocabulary are looked through, conditions are kept in
a negation normal form, branches merge into phi terms, loops are entered once with an abstract iteration index and with the
variables they change widened to loop terms (induction variables are recognised).  What is done along the way is recorded as
a list of events, each with the conditions and loops it is under.  The rules read these events; nothing of the analysed
code is executed and no path condition is handed to a solver.
"""
from __future__ import annotations
import ast
from .front import dotted, walk_local
from .flow import local_names as bound_names, T

_own = {}


def local_names(f):
    """Names a function binds otherwise than by importing (an import means the same wherever it stands)."""
    if f not in _own:
        got = {(a.asname or a.name).split('.')[0] for n in walk_local(f.node) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        kept = {n.id for n in walk_local(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        _own[f] = bound_names(f) - (got - kept)
    return _own[f]


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.MatMult: '@', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
NUM = {'int', 'bool', 'float', 'ndarray'}
TRUE, FALSE, NONE = ('c', True, 'bool'), ('c', False, 'bool'), ('c', None)


# ---------------------------------------------------------------- terms
def c(v):
    # 1, True and 1.0 are equal in Python, and different terms here
    return ('c', v, type(v).__name__) if isinstance(v, (bool, float)) else ('c', v)


def isint(t):
    return t[0] == 'c' and isinstance(t[1], int) and not isinstance(t[1], bool)


def poly(t):
    """{monomial (sorted tuple of atoms): coefficient}."""
    if isint(t):
        return {(): t[1]} if t[1] else {}
    if t[0] == 'poly':
        return dict(t[1])
    return {(t,): 1}


def unpoly(d):
    d = {m: k for m, k in d.items() if k}
    if not d:
        return c(0)
    if set(d) == {()}:
        return c(d[()])
    if len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            return m[0]
    return ('poly', tuple(sorted(d.items(), key=lambda x: (len(x[0]), repr(x)))))


def padd(a, b, s=1):
    d = poly(a)
    for m, k in poly(b).items():
        d[m] = d.get(m, 0) + s * k
    return unpoly(d)


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    d = {}
    for m, k in poly(a).items():
        for n, l in poly(b).items():
            mn = tuple(sorted(m + n, key=repr))
            d[mn] = d.get(mn, 0) + k * l
    return unpoly(d)


def pneg(a):
    return unpoly({m: -k for m, k in poly(a).items()})


def atoms(t):
    """Atoms (non-polynomial subterms) of an integer term."""
    return {a for m in poly(t) for a in m}


def subterms(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x not in seen:
                seen.add(x)
                yield x
            todo.extend(y for y in x if isinstance(y, tuple))


def contains(t, u):
    if t == u:
        return True
    return isinstance(t, tuple) and any(contains(x, u) for x in t if isinstance(x, tuple))


def subst(t, m):
    """Replace terms by terms; integer arithmetic is renormalised."""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if t and t[0] == 'poly':
        out = c(0)
        for mono, k in t[1]:
            x = c(k)
            for a in mono:
                x = pmul(x, subst(a, m))
            out = padd(out, x)
        return out
    return tuple(subst(x, m) for x in t)


def neg(t):
    k = t[0]
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if k == 'ge0':                     # not p >= 0  <=>  -p - 1 >= 0
        return ge0(psub(pneg(t[1]), c(1)))
    if k == 'eq0':
        return ('ne0', t[1])
    if k == 'ne0':
        return ('eq0', t[1])
    if k == 'not':
        return t[1]
    if k == 'and':
        return disj([neg(x) for x in t[1]])
    if k == 'or':
        return conj([neg(x) for x in t[1]])
    if k == 'forall':
        return ('exists', t[1], neg(t[2]))
    if k == 'exists':
        return ('forall', t[1], neg(t[2]))
    if k == 'cmp':
        inv = {'==': '!=', '!=': '==', 'is': 'is not', 'is not': 'is', 'in': 'not in', 'not in': 'in'}
        if t[1] in inv:
            return ('cmp', inv[t[1]], t[2], t[3])
    return ('not', t)


def ge0(p):
    if isint(p):
        return c(p[1] >= 0)
    d = poly(p)
    if len(d) == 2 and all(len(m) == 1 for m in d) and sorted(d.values()) == [-1, 1]:
        (x,), (y,) = d
        if distinct(x, y):
            return ('ge0', padd(p, c(1), -1))
    return ('ge0', p)


def distinct(a, b):
    """Two different entries of the parameter `perm`, the word of a permutation."""
    if a[0] == b[0] == 'idx' and a[1] == b[1] == ('p', 'perm'):
        d = psub(a[2], b[2])
        return isint(d) and d[1] != 0
    return False


def eq0(p):
    if isint(p):
        return c(p[1] == 0)
    q = odd(p)
    if q is not None:
        return ('ne0', q)
    q = pneg(p)
    return ('eq0', min(p, q, key=repr))


def odd(p):
    """x % 2 where p is x % 2 - 1 or its opposite."""
    if p[0] == 'poly' and len(p[1]) == 2:
        d = dict(p[1])
        k = d.pop((), 0)
        (m, x), = d.items() if len(d) == 1 else (((), 0),)
        if len(m) == 1 and m[0][:2] == ('op', '%') and m[0][3] == c(2) and abs(x) == 1 and k == -x:
            return m[0]
    return None


def conj(xs):
    out = []
    for x in xs:
        for y in (x[1] if x[0] == 'and' else (x,)):
            if y == FALSE:
                return FALSE
            if y != TRUE and y not in out:
                out.append(y)
    if not out:
        return TRUE
    if any(neg(y) in out for y in out):
        return FALSE
    return out[0] if len(out) == 1 else ('and', tuple(out))


def disj(xs):
    out = []
    for x in xs:
        for y in (x[1] if x[0] == 'or' else (x,)):
            if y == TRUE:
                return TRUE
            if y != FALSE and y not in out:
                out.append(y)
    if not out:
        return FALSE
    if any(neg(y) in out for y in out):
        return TRUE
    # (a and b) or not a  ->  b or not a
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def show(t, d=0):
    """Readable form of a term, for messages."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    s = lambda x: show(x, d + 1)
    if d > 6:
        return '…'
    if k == 'c':
        return repr(t[1])
    if k in ('p', 'glob', 'free'):
        return str(t[1]).split('.')[-1]
    if k == 'attr':
        return f'{s(t[1])}.{t[2]}'
    if k == 'poly':
        out = ''
        for m, co in t[1]:
            x = '*'.join(s(a) for a in m)
            sign = '-' if co < 0 else '+'
            co = abs(co)
            out += f' {sign} ' + (x if co == 1 and x else f'{co}*{x}' if x else str(co))
        return out.strip().removeprefix('+ ')
    if k == 'op':
        return f'({s(t[2])} {t[1]} {s(t[3])})'
    if k == 'ge0':
        return f'{s(t[1])} >= 0'
    if k == 'eq0':
        return f'{s(t[1])} == 0'
    if k == 'ne0':
        return f'{s(t[1])} != 0'
    if k == 'cmp':
        return f'{s(t[2])} {t[1]} {s(t[3])}'
    if k == 'not':
        return f'not ({s(t[1])})'
    if k in ('and', 'or'):
        return '(' + f' {k} '.join(s(x) for x in t[1]) + ')'
    if k == 'idx':
        return f'{s(t[1])}[{s(t[2])}]'
    if k == 'slice':
        return ':'.join('' if x == NONE else s(x) for x in t[1:])
    if k in ('tuple', 'list'):
        return ('(' if k == 'tuple' else '[') + ', '.join(s(x) for x in t[1]) + (')' if k == 'tuple' else ']')
    if k == 'call':
        return f'{t[1].split(".")[-1]}(' + ', '.join(s(a) if isinstance(n, int) or n == 'self' else f'{n}={s(a)}' for n, a in t[2]) + ')'
    if k == 'new':
        return f'{t[1].split(".")[-1]}(' + ', '.join(f'{n}={s(a)}' for n, a in t[2]) + ')'
    if k == 'phi':
        return f'({s(t[2])} if {s(t[1])} else {s(t[3])})'
    if k == 'iv':
        return f'i{t[1]}'
    if k == 'comp':
        return f'[{s(t[3])} for i{",i".join(map(str, t[2]))}]' if t[1] != 'dict' else '{…}'
    return k + ''.join(f' {s(x) if isinstance(x, tuple) else x}' for x in t[1:4])


def items(t):
    """Elements of a tuple/list display term, else None."""
    return t[1] if t[0] in ('tuple', 'list') else None


def arg(t, name, pos=None, default=None):
    """Argument of a call/new term by name or position."""
    for k, v in t[2]:
        if k == name or pos is not None and k == pos:
            return v
    return default


BACKWARDS = ('slice', NONE, NONE, c(-1))
FULL = ('slice', NONE, NONE, NONE)


def bare(t):
    """Without the marks that say when it was read."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'at':
        return bare(t[1])
    if t[0] in ('idx', 'slice_of', 'attr'):
        return (t[0], bare(t[1])) + t[2:]
    return t


def seqof(t):
    """Strip conversions that keep the elements and their order."""
    while t[0] == 'call' and t[1] in ('tuple', 'list', 'numpy.array', 'numpy.asarray', 'iter') and t[2]:
        t = t[2][0][1]
    if t[0] == 'call' and t[1] == 'reversed' and len(t[2]) == 1 and not (t[2][0][1][0] == 'call' and t[2][0][1][1] == 'range'):
        return ('idx', seqof(t[2][0][1]), BACKWARDS)
    return t


def shortest(his):
    """Without the bounds that another one is known to be below."""
    return {a for a in his if not any(b != a and isint(psub(a, b)) and psub(a, b)[1] > 0 for b in his)}


# ---------------------------------------------------------------- records
class Loop:
    def __init__(self, id, kind, it=None, lo=None, hi=None, step=None, node=None):
        self.id, self.kind, self.it, self.lo, self.hi, self.step, self.node = id, kind, it, lo, hi, step, node
        self.mu = {}          # variable -> (initial, next)
        self.pre = ()         # loops entered together with this one, outside it (itertools.product)
        self.parents = ()
        self.conds = ()
        self.cond = None
        self.breaks = False
        self.counted = False

    def __repr__(self):
        return f'<loop {self.id} {self.kind} {show(self.it) if self.it else ""} {show(self.lo) if self.lo else ""}..{show(self.hi) if self.hi else ""}>'


class Event:
    def __init__(self, kind, ctx, node, func, **kw):
        self.kind, self.ctx, self.node, self.func = kind, ctx, node, func
        self.touches, self.sizes, self.whole = set(), set(), set()      # what it changes: anything in, the length of, anything about
        self.__dict__.update(kw)

    def conds(self):
        out = []
        for fr in self.ctx:
            if fr[0] == 'if':
                out += list(fr[1][1]) if fr[1][0] == 'and' else [fr[1]]
        return out

    def loops(self):
        return [fr[1] for fr in self.ctx if fr[0] == 'loop']

    def loc(self):
        return self.func.loc(self.node)

    def __repr__(self):
        return f'<{self.kind} {[show(x) for x in self.conds()]} L{self.loops()} {({k: show(v) if isinstance(v, tuple) else v for k, v in self.__dict__.items() if k in ("term", "base", "index", "value", "name")})}>'


class Result:
    def __init__(self):
        self.commutes = set()
        self.events, self.rets, self.yields, self.loops, self.params = [], [], [], {}, {}
        self.falls = None
        self.born = {}        # mutable object -> (context it was created in, its first content)
        self.closures = {}
        self.heap = {}

    def all(self, kind):
        return [e for e in self.events if e.kind == kind]

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and e.name in names]


def options(prog):
    """Names of the command-line options declared as integers."""
    if not hasattr(prog, 'int_options'):
        out = set()
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
                    kw = {k.arg: k.value for k in n.keywords}
                    if isinstance(kw.get('type'), ast.Name) and kw['type'].id == 'int':
                        names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                        d = kw['dest'].value if isinstance(kw.get('dest'), ast.Constant) else next((x for x in names if x.startswith('--')), names[0] if names else '')
                        out.add(d.lstrip('-').replace('-', '_'))
        prog.int_options = out
    return prog.int_options


class Stop(Exception):
    pass


NP_SIG = {'zeros': ('shape', 'dtype'), 'ones': ('shape', 'dtype'), 'empty': ('shape', 'dtype'), 'full': ('shape', 'fill_value', 'dtype'), 'eye': ('N',), 'any': ('a', 'axis'), 'all': ('a', 'axis'), 'sum': ('a', 'axis'),
          'argmax': ('a', 'axis'), 'argmin': ('a', 'axis'), 'max': ('a', 'axis'), 'min': ('a', 'axis'), 'amax': ('a', 'axis'), 'amin': ('a', 'axis'), 'concatenate': ('arrays', 'axis'), 'flip': ('m', 'axis'),
          'pad': ('array', 'pad_width', 'mode'), 'count_nonzero': ('a', 'axis'), 'array': ('object', 'dtype'), 'asarray': ('a', 'dtype'), 'where': ('condition', 'x', 'y'), 'zeros_like': ('a', 'dtype'),
          'roll': ('a', 'shift', 'axis'), 'moveaxis': ('a', 'source', 'destination'), 'swapaxes': ('a', 'axis1', 'axis2'), 'expand_dims': ('a', 'axis'), 'squeeze': ('a', 'axis'), 'astype': ('a', 'dtype'), 'stack': ('arrays', 'axis'),
          'copy': ('a',), 'reshape': ('a', 'newshape'), 'nonzero': ('a',), 'ptp': ('a', 'axis'), 'maximum': ('x1', 'x2'), 'minimum': ('x1', 'x2'), 'clip': ('a', 'min', 'max'), 'mod': ('x1', 'x2'), 'argsort': ('a', 'axis', 'kind'), 'remainder': ('x1', 'x2')}
ND_ONLY = {'any', 'all', 'clip', 'sum', 'argmax', 'argmin', 'max', 'min', 'nonzero', 'squeeze', 'swapaxes', 'ptp'}
ND_METHODS = {'any', 'all', 'clip', 'sum', 'argmax', 'argmin', 'max', 'min', 'astype', 'copy', 'reshape', 'nonzero', 'squeeze', 'swapaxes', 'argsort', 'ptp'}
INT_CALLS = {'len', 'int', 'abs', 'sum', 'round', 'math.comb', 'ord', 'math.isqrt'}


class VN:
    """One value-numbering run over a function (with inlining)."""

    accessors = {}

    def __init__(self, an, vocab, inline=(), keep=(), maxdepth=5, attrs=None):
        self.an, self.p = an, an.p
        self.vocab, self.inline, self.keep, self.maxdepth = vocab, set(inline), set(keep), maxdepth
        self.known_attrs = attrs or {}
        self.uid = 0
        self.closures = {}

    # ---- driver
    def run(self, f, args=None):
        self.res = Result()
        self.res.closures = self.closures
        self.res.vn = self
        self.ctx = ()
        self.seen = {}
        self.heap = {}
        self.stack = [f] + ([f.of] if getattr(f, 'of', None) is not None else [])
        self.f = f
        self.rets = self.res.rets
        env = {}
        for a in f.allparams():
            env[a] = ('p', a)
        if args:
            env.update(args)
        self.res.params = dict(env)
        self.heap.update(self.known_attrs)
        if isinstance(f.node, ast.Lambda):
            v = self.ev(f.node.body, env)
            self.rets.append((self.ctx, v, f.node.body))
            self.res.falls = None
        else:
            e = self.block(f.node.body, env)
            self.res.falls = None if e is None else self.ctx
            self.res.env = e
        self.res.heap = self.heap
        return self.res

    def fresh(self):
        self.uid += 1
        return self.uid

    def emit(self, kind, node, **kw):
        if kind in ('store', 'mut', 'del', 'setattr', 'aug') and 'base' in kw:
            kw['base'] = bare(kw['base'])
        e = Event(kind, self.ctx, node, self.f, **kw)
        if kind in ('store', 'mut', 'del', 'setattr'):
            b = kw['base']
            if kind != 'setattr' and not (kind == 'store' and (b[0] == 'obj' and b[2] == 'list' or b[0] == 'call' and len(b) > 3)):
                e.sizes.add(b)
            self.touch(e, b)
        self.res.events.append(e)
        return e

    # ---- what has been changed so far
    def touch(self, e, t):
        while t[0] in ('idx', 'slice_of', 'attr', 'obj', 'p', 'call', 'free', 'glob'):
            e.touches.add(t)
            self.seen.setdefault(t, set()).add(len(self.res.events))
            if t[0] not in ('idx', 'slice_of', 'attr'):
                break
            t = t[1]

    def now(self, t, what='touches'):
        # the object as it is at this point, when it has been changed before it
        if t in self.seen:
            ev = self.res.events
            n = sum(1 for i in self.seen[t] if i < len(ev) and t in getattr(ev[i], what))
            if n:
                return ('at', t, what, n, tuple(fr[1] for fr in self.ctx if fr[0] == 'loop'))
        return t

    def types(self, node):
        v = self.an.vals.get(node)
        return v.types if v is not None else frozenset()

    def tk(self, node):
        return {t[0] for t in self.types(node)}

    # ---- statements
    def block(self, body, env):
        for s in body:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def stmt(self, s, env):
        return getattr(self, 's_' + type(s).__name__, self.s_other)(s, env)

    def s_other(self, s, env):
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.ev(n, env)
        return env

    def s_Pass(self, s, env):
        return env

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, env):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, env)
        return env

    def s_FunctionDef(self, s, env):
        env = dict(env)
        g = next((h for h in self.p.funcs if h.node is s), None)
        env[s.name] = self.closure(g, env) if g is not None else ('opaque', self.fresh())
        return env

    def s_ClassDef(self, s, env):
        env = dict(env)
        env[s.name] = ('opaque', self.fresh())
        return env

    def closure(self, g, env):
        k = self.fresh()
        self.closures[k] = (g, env)
        return ('fn', k, g.qual)

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value is not None else NONE
        self.rets.append((self.ctx, v, s))
        self.emit('return', s, value=v)
        return None

    def s_Raise(self, s, env):
        v = self.ev(s.exc, env) if s.exc is not None else NONE
        self.emit('raise', s, value=v)
        return None

    def s_Assert(self, s, env):
        cnd = self.cond(s.test, env)
        old = self.ctx
        self.push(neg(cnd))
        if cnd != TRUE:
            self.emit('raise', s, value=('call', 'AssertionError', ()))
        self.ctx = old
        self.push(cnd)
        return None if cnd == FALSE else env

    def push(self, cnd):
        if cnd != TRUE:
            self.ctx = self.ctx + (('if', cnd),)

    def s_Break(self, s, env):
        self.emit('break', s)
        for fr in reversed(self.ctx):
            if fr[0] == 'loop':
                self.res.loops[fr[1]].breaks = True
                break
        return None

    def s_Continue(self, s, env):
        self.emit('continue', s)
        self.conts.append((self.ctx, env))
        return None

    def s_Delete(self, s, env):
        env = dict(env)
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b, i = self.ev(t.value, env), self.ev(t.slice, env)
                self.emit('del', s, base=b, index=i)
            elif isinstance(t, ast.Attribute):
                self.emit('del', s, base=self.ev(t.value, env), index=c(t.attr))
        return env

    def mutnames(self):
        """Local names whose value is changed in place somewhere in the current function."""
        memo = self.__dict__.setdefault('_mutn', {})
        if self.f not in memo:
            out = set()
            for n in ast.walk(self.f.node):
                b = None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault', 'popitem'):
                    b = n.func.value
                elif isinstance(n, ast.Call) and dotted(n.func) in ('heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heappushpop', 'heapq.heapreplace', 'random.shuffle') and n.args:
                    b = n.args[0]
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    b = n.target
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            memo[self.f] = out
        return memo[self.f]

    def fresh_obj(self, v, n):
        k = self.fresh()
        t = ('obj', k, 'list' if v[0] != 'dict' else 'dict')
        self.res.born[t] = (self.ctx, v)
        return t

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in self.mutnames():
            if not isinstance(s.value, (ast.Name, ast.Attribute, ast.Subscript)) and (v[0] in ('list', 'dict') or v[0] == 'comp' and v[1] in ('list', 'dict', 'set') or v[0] == 'op' and v[1] == '*' and 'list' in (v[2][0], v[3][0]) or
                                                                        v[0] == 'call' and v[1] == 'list'):
                v = self.fresh_obj(v, s.value)
        for t in s.targets:
            env = self.assign(t, v, env, s, s.value)
        return env

    def s_AnnAssign(self, s, env):
        if s.value is None:
            return env
        return self.assign(s.target, self.ev(s.value, env), env, s, s.value)

    def s_AugAssign(self, s, env):
        op = OPS[type(s.op)]
        t = s.target
        old = self.ev(t if not isinstance(t, ast.Name) else ast.Name(id=t.id, ctx=ast.Load()), env) if isinstance(t, ast.Name) else self.ev(t, env)
        v = self.ev(s.value, env)
        new = self.binop(op, old, v, self.tk(t) or self.tk(s.value) if isinstance(t, ast.Name) else self.tk(t), self.tk(s.value), s)
        self.emit('aug', s, base=old, op=op, value=v, target=t, new=new)
        if isinstance(t, ast.Name) and old[0] == 'obj' and op == '+':
            self.emit('mut', s, base=old, name='extend', args=((0, v),))
            return env
        return self.assign(t, new, env, s, None, aug=True)

    def assign(self, t, v, env, node, vnode, aug=False):
        if isinstance(t, ast.Name):
            env = dict(env)
            env[t.id] = v
            return env
        if isinstance(t, (ast.Tuple, ast.List)):
            st = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            it = items(v)
            if it is not None and any(x[0] == 'star' for x in it):
                it = None
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    y = ('slice_of', v, c(i), c(i + 1 - n) if i + 1 < n else NONE)
                    if it is not None:
                        y = ('list', tuple(it[i:len(it) - (n - 1 - i)]))
                    env = self.assign(x.value, y, env, node, None)
                else:
                    j = i if st is None or i < st else i - n
                    y = it[j] if it is not None and -len(it) <= j < len(it) else self.index(v, c(j))
                    env = self.assign(x, y, env, node, None)
            return env
        if isinstance(t, ast.Subscript):
            b, i = self.ev(t.value, env), self.ev(t.slice, env)
            i = self.subscripts(b, i)
            self.emit('store', node, base=b, index=i, value=v, aug=aug)
            return env
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.emit('setattr', node, base=b, name=t.attr, value=v, aug=aug)
            self.heap[(b, t.attr)] = v
            return env
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, env, node, vnode)
        return env

    def merge(self, cnd, outs, base):
        """outs: [(cond of the branch, env, ctx, heap)] of the branches that fall through."""
        outs = [o for o in outs if o[1] is not None]
        if not outs:
            return None
        rel = []
        for cd, e, cx, h in outs:
            rel.append(conj([fr[1] for fr in cx[len(base):] if fr[0] == 'if']))
        self.ctx = base
        self.push(disj(rel))
        if len(outs) == 1:
            self.heap = outs[0][3]
            return outs[0][1]
        env = dict(outs[-1][1])
        heap = dict(outs[-1][3])
        for cd, e, cx, h in reversed(outs[:-1]):
            for k in set(e) | set(env):
                a, b = e.get(k), env.get(k)
                if a != b:
                    env[k] = self.phi(cd, a if a is not None else ('undef', k), b if b is not None else ('undef', k))
            for k in set(h) | set(heap):
                if h.get(k) != heap.get(k):
                    a, b = h.get(k), heap.get(k)
                    heap[k] = self.phi(cd, a if a is not None else ('attr',) + k, b if b is not None else ('attr',) + k)
        self.heap = heap
        return env

    def phi(self, cd, a, b):
        if a == b:
            return a
        if cd == TRUE:
            return a
        if cd == FALSE:
            return b
        if a == TRUE and b == FALSE:
            return cd
        if a == FALSE and b == TRUE:
            return neg(cd)
        n = neg(cd)
        for x, there in ((cd, True), (n, False)):
            if x[0] == 'eq0':
                # the branch where p == k
                q = poly(x[1])
                ms = [m for m in q if m]
                if len(ms) == 1 and len(ms[0]) == 1 and abs(q[ms[0]]) == 1 and ms[0][0][0] in ('mu', 'p', 'fin'):
                    k = {ms[0][0]: c(-q.get((), 0) * q[ms[0]])}
                    if there:
                        a = subst(a, k)
                    else:
                        b = subst(b, k)
        if a == b:
            return a
        if repr(n) < repr(cd) and n[0] != 'not':
            return ('phi', n, b, a)
        return ('phi', cd, a, b)

    def s_If(self, s, env):
        cnd = self.cond(s.test, env)
        return self.branch(cnd, lambda e: self.block(s.body, e), lambda e: self.block(s.orelse, e), env)

    def branch(self, cnd, then, other, env):
        base, heap = self.ctx, dict(self.heap)
        outs = []
        if cnd != FALSE:
            self.push(cnd)
            self.heap = dict(heap)
            e = then(env)
            outs.append((cnd, e, self.ctx, self.heap))
        if cnd != TRUE:
            self.ctx = base
            self.push(neg(cnd))
            self.heap = dict(heap)
            e = other(env)
            outs.append((neg(cnd), e, self.ctx, self.heap))
        return self.merge(cnd, outs, base)

    def s_Match(self, s, env):
        subj = self.ev(s.subject, env)

        def case(i, e):
            if i == len(s.cases):
                return e
            k = s.cases[i]
            binds = {}
            cnd = self.pattern(k.pattern, subj, binds, e)
            e2 = dict(e)
            e2.update(binds)
            if k.guard is not None:
                cnd = conj([cnd, self.cond(k.guard, e2)])
            return self.branch(cnd, lambda _: self.block(k.body, e2), lambda _: case(i + 1, e), e)
        return case(0, env)

    def pattern(self, p, t, binds, env):
        if isinstance(p, ast.MatchValue):
            return self.compare('==', t, self.ev(p.value, env), set(), self.tk(p.value))
        if isinstance(p, ast.MatchSingleton):
            return ('cmp', 'is', t, c(p.value))
        if isinstance(p, ast.MatchAs):
            r = self.pattern(p.pattern, t, binds, env) if p.pattern is not None else TRUE
            if p.name:
                binds[p.name] = t
            return r
        if isinstance(p, ast.MatchOr):
            return disj([self.pattern(x, t, binds, env) for x in p.patterns])
        if isinstance(p, ast.MatchSequence):
            if any(isinstance(x, ast.MatchStar) for x in p.patterns):
                for i, x in enumerate(p.patterns):
                    if isinstance(x, ast.MatchStar) and x.name:
                        binds[x.name] = ('slice_of', t, c(i), NONE)
                return ('opaque', self.fresh())
            return conj([eq0(psub(('call', 'len', ((0, t),)), c(len(p.patterns))))] + [self.pattern(x, self.index(t, c(i)), binds, env) for i, x in enumerate(p.patterns)])
        if isinstance(p, ast.MatchClass):
            cl = self.ev(p.cls, env)
            cs = [('isinst', t, cl)]
            d = dotted(p.cls)
            k = self.p.resolve_class(self.f.mod, p.cls)
            names = [x for x, _, _ in k.fields()] if k is not None else []
            for i, x in enumerate(p.patterns):
                if k is None:
                    cs.append(self.pattern(x, t, binds, env))
                elif i < len(names):
                    cs.append(self.pattern(x, self.getattr(t, names[i]), binds, env))
            for a, x in zip(p.kwd_attrs, p.kwd_patterns):
                cs.append(self.pattern(x, self.getattr(t, a), binds, env))
            return conj(cs)
        return ('opaque', self.fresh())

    # ---- loops
    def iterate(self, itnode, env):
        """(loop, term of the item) for iterating over the value of an expression."""
        t = self.ev(itnode, env)
        return self.iter_term(t, itnode)

    def iter_term(self, t, node):
        k = self.fresh()
        iv = ('iv', k)
        L = None
        if t[0] == 'call' and t[1] == 'itertools.product':
            parts = [x for n, x in t[2] if isinstance(n, int)]
            r = arg(t, 'repeat')
            if r is not None and isint(r) and 0 < r[1] < 5:
                parts = parts * r[1]
                r = None
            if parts and r is None and not any(x[0] == 'star' for x in parts):
                base, got = self.ctx, []
                for x in parts[:-1]:
                    S, it = self.iter_term(x, node)
                    S.count = ('iv', S.id)
                    self.ctx = self.ctx + (('loop', S.id),)
                    got.append((S.id, it))
                L, it = self.iter_term(parts[-1], node)
                self.ctx = base
                L.pre = tuple(i for i, _ in got)
                return L, ('tuple', tuple(x for _, x in got) + (it,))
        if t[0] == 'call' and t[1] == 'range':
            a = [x for _, x in t[2]]
            lo, hi, st = (c(0), a[0], c(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else c(1))
            L = Loop(k, 'range', t, lo, hi, st, node)
            item = iv
        elif t[0] == 'call' and t[1] == 'enumerate':
            inner = t[2][0][1]
            start = arg(t, 'start', 1, c(0))
            L, item = self.seqloop(k, inner, node)
            item = ('tuple', (padd(iv, start), item))
        elif t[0] == 'call' and t[1] in ('zip', 'itertools.zip_longest') and t[2] and not any(x[0] == 'star' for _, x in t[2]):
            fill = arg(t, 'fillvalue')
            parts = [self.seqloop(k, x, node) for n, x in t[2] if isinstance(n, int)]
            L = Loop(k, 'zip', t, c(0), ('min' if t[1] == 'zip' else 'max', tuple(sorted({p[0].hi for p in parts}, key=repr))), c(1), node)
            L.parts = [x for n, x in t[2]]
            his = {p[0].hi for p in parts}
            if t[1] == 'zip':
                his = shortest(his)
                L.hi = ('min', tuple(sorted(his, key=repr)))
            if len(his) == 1:
                L.hi = his.pop()
            if t[1] != 'zip' and len(his) != 0:
                parts = [(P, ('phi', ge0(psub(psub(P.hi, iv), c(1))), x, fill or NONE)) for P, x in parts]
            item = ('tuple', tuple(p[1] for p in parts))
        elif t[0] == 'call' and t[1] in ('.items', '.values', '.keys') and len(t[2]) == 1:
            d = t[2][0][1]
            L = Loop(k, 'dict', t, c(0), ('call', 'len', ((0, d),)), c(1), node)
            key = ('key', d, iv)
            item = {'.items': ('tuple', (key, ('idx', d, key))), '.values': ('idx', d, key), '.keys': key}[t[1]]
        elif t[0] == 'call' and t[1] == 'reversed' and t[2] and t[2][0][1][0] == 'call' and t[2][0][1][1] == 'range':
            a = [x for _, x in t[2][0][1][2]]
            lo, hi = (c(0), a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) < 3:
                L = Loop(k, 'range', t, psub(hi, c(1)), psub(lo, c(1)), c(-1), node)
                item = iv
        if L is None:
            L, item = self.seqloop(k, t, node)
        L.parents = tuple(fr[1] for fr in self.ctx if fr[0] == 'loop')
        L.rank = len(self.res.loops)
        self.res.loops[k] = L
        return L, item

    def seqloop(self, k, t, node):
        iv = ('iv', k)
        if t[0] == 'call' and t[1] == 'range':
            a = [x for _, x in t[2]]
            lo, hi, st = (c(0), a[0], c(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else c(1))
            if st == c(1):
                return Loop(k, 'seq', t, c(0), psub(hi, lo), c(1), node), padd(lo, iv)
        s = seqof(t)
        if s[0] == 'call' and s[1] == 'zip' and s[2] and not any(x[0] == 'star' for _, x in s[2]):
            parts = [self.seqloop(k, x, node) for n, x in s[2] if isinstance(n, int)]
            his = tuple(sorted(shortest({p[0].hi for p in parts}), key=repr))
            return Loop(k, 'zip', s, c(0), his[0] if len(his) == 1 else ('min', his), c(1), node), ('tuple', tuple(p[1] for p in parts))
        if s[0] == 'call' and s[1] == 'enumerate' and s[2]:
            L, item = self.seqloop(k, s[2][0][1], node)
            return L, ('tuple', (padd(iv, arg(s, 'start', 1, c(0))), item))
        n = self.length(s)
        if s[0] == 'slice_of' and (s[2] == NONE or isint(s[2]) and s[2][1] >= 0) and (s[3] == NONE or isint(s[3]) and s[3][1] < 0):
            # number of turns: not above zero is none at all
            n = padd(psub(self.length(s[1]), c(0) if s[2] == NONE else s[2]), c(0) if s[3] == NONE else s[3])
            return Loop(k, 'seq', s, c(0), n, c(1), node), self.index(s[1], iv if s[2] == NONE else padd(s[2], iv))
        return Loop(k, 'seq', s, c(0), n, c(1), node), self.index(s, iv)

    def length(self, t):
        s = seqof(t)
        it = items(s)
        if it is not None and not any(x[0] == 'star' for x in it):
            return c(len(it))
        if s[0] == 'comp' and s[1] in ('list', 'gen') and len(s[2]) == 1 and not s[4]:
            L = self.res.loops[s[2][0]]
            if L.step == c(1) and L.kind in ('range', 'seq', 'zip', 'dict'):
                return psub(L.hi, L.lo)
        if s[0] == 'call' and s[1] == 'range' and len(s[2]) <= 2:
            a = [x for _, x in s[2]]
            if len(a) == 1 and a[0][0] != 'c':
                return ('call', 'len', ((0, s),)) if False else a[0]
        if s[0] == 'idx' and s[2] == BACKWARDS:
            return self.length(s[1])
        if s in self.seen:
            s = self.now(s, 'sizes')
        if s[0] == 'attr' and s[2] == 'seq' and self.p.cls('tl.TLDiag') is not None:
            return padd(self.getattr(s[1], 'top'), self.getattr(s[1], 'bot'))       # every TL diagram is built so
        return ('call', 'len', ((0, s),))

    def assigned(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    out.add(n.name)
        return out

    def heapkeys(self, body):
        return {n.attr for s in body for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}

    def run_loop(self, s, L, env, target=None, item=None, test=None):
        base = self.ctx
        changed = self.assigned(s.body)
        names = changed if target is None else changed | {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        init = {v: env.get(v) for v in changed}
        stored = self.heapkeys(s.body)
        hasc = any(isinstance(n, ast.Call) for b in s.body for n in ast.walk(b))
        heap0 = {k: v for k, v in self.heap.items() if k[1] not in stored}
        ind = {}
        snap = (len(self.res.events), len(self.rets), len(self.res.yields), dict(self.res.loops), dict(self.closures), self.uid)
        for attempt in range(3):
            e = dict(env)
            for v in changed:
                if init[v] is not None:
                    if v in ind:
                        # induction variable: initial value plus a constant per iteration
                        e[v] = padd(init[v], pmul(ind[v], L.count)) if L.kind != 'while' else padd(init[v], pmul(ind[v], ('iv', L.id)))
                    elif init[v][0] in ('obj',):
                        e[v] = ('mu', L.id, v)
                    else:
                        e[v] = ('mu', L.id, v)
                else:
                    e.pop(v, None)
            self.heap = dict(heap0)
            self.ctx = base + tuple(('loop', i) for i in L.pre) + (('loop', L.id),)
            saved, self.conts = getattr(self, 'conts', []), []
            if test is not None:
                L.cond = self.cond(test, e)
                self.push(L.cond)
            if target is not None:
                e = self.assign(target, item, e, s, None)
            out = self.block(s.body, e)
            ends = [(self.ctx, out)] if out is not None else []
            ends += list(self.conts)
            self.conts = saved
            inner = base + tuple(('loop', i) for i in L.pre) + (('loop', L.id),) + ((('if', L.cond),) if test is not None and L.cond != TRUE else ())
            end = self.join(ends, inner)
            L.mu = {}
            new_ind = {}
            for v in changed:
                if init[v] is None:
                    continue
                nxt = end.get(v) if end is not None else None
                L.mu[v] = (init[v], nxt)
                if nxt is not None and v not in ind and attempt == 0 and init[v][0] not in ('tuple', 'list', 'obj', 'new') and nxt[0] in ('poly', 'c', 'mu'):
                    d = psub(nxt, ('mu', L.id, v))
                    if isint(d) and (L.kind != 'x'):
                        new_ind[v] = d
            unchanged = {v: c(0) for v in changed if init[v] is not None and L.mu[v][1] == ('mu', L.id, v)}
            new_ind.update(unchanged)
            if attempt == 0 and new_ind and all(not isint(d) or True for d in new_ind.values()):
                ind = new_ind
                del self.res.events[snap[0]:], self.rets[snap[1]:], self.res.yields[snap[2]:]
                for k in list(self.res.loops):
                    if k not in snap[3]:
                        del self.res.loops[k]
                self.uid = snap[5]
                # the loop's own id stays
                self.uid = max(self.uid, L.id)
                continue
            break
        if L.kind == 'while' and L.cond is not None:
            # while i < n: ...; i += 1
            p = poly(L.cond[1]) if L.cond[0] == 'ge0' else {}
            iv = ('iv', L.id)
            if p.get((iv,)) == -1 and sum(1 for m in p if any(contains(a, iv) or contains(a, ('mu', L.id)) or a[0] == 'mu' and a[1] == L.id for a in m)) == 1 and \
                    not any(x[0] == 'mu' and x[1] == L.id for x in subterms(L.cond)):
                L.kind, L.lo, L.step = 'range', c(0), c(1)
                L.hi = padd(padd(L.cond[1], iv), c(1))
                L.counted = True
        res = dict(env)
        for v in changed:
            if init[v] is None:
                if out is not None and v in out:
                    res[v] = ('last', L.id, out[v])
                continue
            if v in ind:
                res[v] = padd(init[v], pmul(ind[v], self.trips(L)))
            elif v in L.mu:
                res[v] = ('fin', L.id, v)
        if target is not None:
            for n in ast.walk(target):
                if isinstance(n, ast.Name) and n.id not in changed:
                    res[n.id] = ('last', L.id, e.get(n.id, ('undef', n.id)))
        self.ctx = base
        self.heap = heap0
        if L.cond is not None and not L.breaks and L.kind == 'while':
            m = {}
            for v in changed:
                if init[v] is not None:
                    m[('mu', L.id, v)] = res[v]
            self.ctx = self.ctx + (('exit', neg(subst(subst(L.cond, m), {('iv', L.id): ('trips', L.id)}))),)
        if s.orelse:
            res = self.block(s.orelse, res)
        return res

    def join(self, ends, base):
        """Environment at a join of several paths, each with the context it arrives in."""
        if not ends:
            return None
        env = dict(ends[0][1])
        for cx, e in ends[1:]:
            fr = cx[len(base):]
            if cx[:len(base)] != base or any(f[0] != 'if' for f in fr):
                cd = None
            else:
                cd = conj([f[1] for f in fr])
            for k in set(e) | set(env):
                a, b = e.get(k), env.get(k)
                if a != b:
                    env[k] = ('opaque', self.fresh()) if cd is None else self.phi(cd, a if a is not None else ('undef', k), b if b is not None else ('undef', k))
        return env

    def trips(self, L):
        if L.breaks or L.kind == 'while' or L.pre:
            return ('trips', L.id)
        if L.step == c(1):
            return psub(L.hi, L.lo)
        if L.step == c(-1):
            return psub(L.lo, L.hi)
        return ('trips', L.id)

    def unfold(self, s, env):
        """for x in (e for y in ys if c): ...   is   for y in ys: if c: x = e; ..."""
        g = s.iter
        if not isinstance(g, ast.GeneratorExp) or s.orelse or any(x.is_async for x in g.generators):
            return None
        own = {n.id for x in g.generators for n in ast.walk(x.target) if isinstance(n, ast.Name)}
        mine = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        used = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name)}
        if own & (set(env) | used) - mine:
            return None
        if len(g.generators) > 1 and any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
            return None
        body = list(s.body)
        if not (isinstance(g.elt, ast.Name) and isinstance(s.target, ast.Name) and g.elt.id == s.target.id):
            body = [ast.copy_location(ast.Assign(targets=[s.target], value=g.elt), s)] + body
        for x in reversed(g.generators):
            for t in reversed(x.ifs):
                body = [ast.copy_location(ast.If(test=t, body=body, orelse=[]), s)]
            body = [ast.copy_location(ast.For(target=x.target, iter=x.iter, body=body, orelse=[]), s)]
        return body[0]

    def s_For(self, s, env):
        flat = self.unfold(s, env)
        if flat is not None:
            return self.s_For(flat, env)
        L, item = self.iterate(s.iter, env)
        # number of iterations before the current one
        if L.kind == 'range':
            L.count = psub(('iv', L.id), L.lo) if L.step == c(1) else psub(L.lo, ('iv', L.id)) if L.step == c(-1) else ('itercount', L.id)
        else:
            L.count = ('iv', L.id)
        if L.pre:
            L.count = ('itercount', L.id)
        return self.run_loop(s, L, env, s.target, item)

    def s_While(self, s, env):
        k = self.fresh()
        L = Loop(k, 'while', node=s)
        L.count = ('iv', k)
        L.parents = tuple(fr[1] for fr in self.ctx if fr[0] == 'loop')
        L.rank = len(self.res.loops)
        self.res.loops[k] = L
        return self.run_loop(s, L, env, test=s.test)

    def s_With(self, s, env):
        base = self.ctx
        ts = []
        closes, commits = [], []
        for i in s.items:
            t = self.ev(i.context_expr, env)
            if t[0] == 'call' and t[1] == 'contextlib.closing' and len(t[2]) == 1:
                t = t[2][0][1]
                closes.append(t)
                if i.optional_vars is not None:
                    env = self.assign(i.optional_vars, t, env, s, None)
                continue
            if isinstance(i.context_expr, ast.Name) and 'Connection' in ast.unparse(self.f.annot.get(i.context_expr.id) or ast.Constant(0)) or t[0] == 'call' and t[1] == 'sqlite3.connect':
                commits.append(t)
                if i.optional_vars is not None:
                    env = self.assign(i.optional_vars, t, env, s, None)
                continue
            ts.append(t)
            self.emit('enter', s, term=t)
            if i.optional_vars is not None:
                env = self.assign(i.optional_vars, ('enter', t), env, s, None)
        k = self.fresh()
        self.ctx = base + tuple(('with', t) for t in ts) + ((('try', k, True, ()),) if closes else ())
        out = self.block(s.body, env)
        extra = tuple(fr for fr in self.ctx[len(base):] if fr[0] == 'if')
        self.ctx = base + extra
        if out is not None:
            for t in commits:
                self.methcall(s, 'commit', t, [], {}, frozenset())
        for t in closes:
            self.ctx = base + (('finally', k),)
            self.methcall(s, 'close', t, [], {}, frozenset())
            self.ctx = base + extra
        for t in ts:
            self.emit('exit', s, term=t)
        return out

    def s_Try(self, s, env):
        base = self.ctx
        k = self.fresh()
        self.ctx = base + (('try', k, bool(s.finalbody), tuple(dotted(h.type) if h.type is not None else '' for h in s.handlers)),)
        out = self.block(s.body, env)
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        extra = tuple(fr for fr in self.ctx[len(base):] if fr[0] == 'if')
        outs = [out]
        for h in s.handlers:
            self.ctx = base + (('except', k),)
            e = dict(env)
            for v in self.assigned(s.body):
                if v in e:
                    e[v] = ('opaque', self.fresh())
            if h.name:
                e[h.name] = ('opaque', self.fresh())
            outs.append(self.block(h.body, e))
        self.ctx = base + extra if not s.handlers else base
        live = [o for o in outs if o is not None]
        res = None
        if live:
            res = dict(live[0])
            for o in live[1:]:
                for v in set(o) | set(res):
                    if o.get(v) != res.get(v):
                        res[v] = ('opaque', self.fresh())
        if s.finalbody:
            cx = self.ctx
            self.ctx = base + (('finally', k),)
            e = self.block(s.finalbody, res if res is not None else dict(env))
            self.ctx = cx
            if res is not None:
                res = e
        return res

    # ---- conditions
    def cond(self, n, env):
        if isinstance(n, ast.BoolOp):
            # short circuit: later operands are evaluated under the earlier ones
            base, out = self.ctx, []
            for v in n.values:
                x = self.cond(v, env)
                out.append(x)
                self.push(x if isinstance(n.op, ast.And) else neg(x))
            self.ctx = base
            return conj(out) if isinstance(n.op, ast.And) else disj(out)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return neg(self.cond(n.operand, env))
        t = self.ev(n, env)
        return self.truth(t, self.tk(n))

    def truth(self, t, tk=frozenset()):
        if t[0] in ('ge0', 'eq0', 'ne0', 'cmp', 'and', 'or', 'not', 'isinst', 'forall', 'exists'):
            return t
        if t[0] == 'c':
            return c(bool(t[1]))
        if t[0] == 'phi':
            a, b = self.truth(t[2], tk), self.truth(t[3], tk)
            return disj([conj([t[1], a]), conj([neg(t[1]), b])])
        if t[0] in ('tuple', 'list') and not any(x[0] == 'star' for x in t[1]):
            return c(len(t[1]) > 0)
        if tk and tk <= {'list', 'tuple', 'tup', 'dict', 'set', 'str', 'frozenset', 'seq', 'bytes'}:
            return ge0(psub(self.length(t), c(1)))
        if tk and tk <= {'int'} or t[0] == 'poly':
            return neg(eq0(t))
        return t

    # ---- expressions
    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.expr):
                    self.ev(x, env)
            return ('opaque', self.fresh())
        return m(n, env)

    def e_Constant(self, n, env):
        return c(n.value)

    def e_JoinedStr(self, n, env):
        return ('fstr', tuple(self.ev(v, env) for v in n.values))

    def e_FormattedValue(self, n, env):
        return ('fmt', self.ev(n.value, env), n.conversion, self.ev(n.format_spec, env) if n.format_spec is not None else NONE)

    def e_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        g = self.f
        while g is not None:
            if n.id in local_names(g) and n.id not in env:
                if g is self.f:
                    return ('undef', n.id)
            g = g.parent
        return self.globalname(n.id)

    def globalname(self, name):
        r = self.p.lookup(self.f.mod, name)
        if r is not None:
            if r[0] == 'func':
                return ('func', r[1].short)
            if r[0] == 'class':
                return ('class', r[1].qual)
            if r[0] == 'var':
                return ('glob', f'{r[1].name}.{r[2]}')
            return ('ext', r[1])
        # class-level names and builtins
        k = self.f.cls
        while k is not None:
            if name in k.inner:
                return ('class', k.inner[name].qual)
            k = k.outer
        if any(name in f.allparams() or name in local_names(f) for f in self.parents()):
            return ('free', name)
        return ('bi', name)

    def parents(self):
        g, out = self.f.parent, []
        while g is not None:
            out.append(g)
            g = g.parent
        return out

    def e_Attribute(self, n, env):
        d = dotted(n)
        if d and d.split('.')[0] not in env:
            r = self.p.resolve_dotted(self.f.mod, d)
            if r is not None and d.split('.')[0] not in local_names(self.f):
                if r[0] == 'func':
                    return ('func', r[1].short)
                if r[0] == 'class':
                    return ('class', r[1].qual)
                if r[0] == 'var':
                    return ('glob', f'{r[1].name}.{r[2]}')
                if r[0] in ('ext', 'mod'):
                    return ('ext', r[1])
                if r[0] == 'clsattr':
                    return ('attr', ('class', r[1].qual), n.attr)
        b = self.ev(n.value, env)
        # properties
        props = []
        for t in self.types(n.value):
            if t[0] == 'inst':
                for m in self.an.impls(t[1], n.attr):
                    props.append(m)
        props = list(dict.fromkeys(props))
        if props and all(m.property for m in props):
            if len(props) == 1 and self.inlinable(props[0]):
                r = self.inline_call(props[0], {props[0].params[0]: b}, n)
                if r is not None:
                    return r
            t = ('call', props[0].short, ((('self'), b),))
            self.emit('call', n, term=t, name=props[0].short, targets=props)
            return t
        return self.getattr(b, n.attr)

    def getattr(self, b, name):
        if (b, name) in self.heap:
            return self.heap[(b, name)]
        if b[0] == 'new':
            k = self.p.cls(b[1])
            if k is not None and k.find_method('__init__') is None:
                for fn, ft in b[2]:
                    if fn == name:
                        return ft
        if b in self.seen:
            b = self.now(b, 'whole')
        if name == 'ndim':
            return ('call', 'len', ((0, self.getattr(b, 'shape')),))
        if b[0] == 'phi':
            x, y = self.getattr(b[2], name), self.getattr(b[3], name)
            return self.phi(b[1], x, y)
        return ('attr', b, name)

    def e_Subscript(self, n, env):
        ks = [t[1] for t in self.types(n.value) if t[0] == 'inst']
        if len(ks) == 1 and isinstance(n.slice, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(self.types(n.value)) == 1:
            g = ks[0].find_method('__getitem__')
            if g is not None and g not in self.stack:
                v = self.entry(g, self.now(self.ev(n.value, env)), self.ev(n.slice, env))
                if v is not None:
                    return v
        return self.index(self.now(self.ev(n.value, env)), self.ev(n.slice, env))

    def entry(self, g, b, i):
        """The item a container of the project returns for a literal index, tests of the index aside."""
        if len(g.params) != 2 or not isinstance(g.node, ast.FunctionDef) or i[0] != 'tuple':
            return None
        body = [s for s in g.node.body if not isinstance(s, ast.Expr)]
        if not body or not isinstance(body[-1], ast.Return) or body[-1].value is None:
            return None
        env = {g.params[0]: b, g.params[1]: i}
        for s in body[:-1]:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Name) and s.value.id == g.params[1] \
                    and len(s.targets[0].elts) == len(i[1]) and all(isinstance(x, ast.Name) for x in s.targets[0].elts):
                env.update({x.id: v for x, v in zip(s.targets[0].elts, i[1])})
            elif not (isinstance(s, ast.If) and isinstance(s.body[-1], ast.Raise) and not s.orelse or isinstance(s, ast.Assert)):
                return None
        if any(isinstance(x, ast.Call) for x in ast.walk(body[-1])):
            return None
        f, self.f = self.f, g
        self.stack.append(g)
        try:
            return self.ev(body[-1].value, env)
        finally:
            self.stack.pop()
            self.f = f

    def ndim(self, b):
        """Number of axes of an array that is made here."""
        if b[0] == 'call' and b[1] in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full'):
            s = arg(b, 'shape')
            it = items(s) if s is not None else None
            if it is not None and not any(x[0] == 'star' for x in it):
                return len(it)
        return None

    def subscripts(self, b, i):
        """A[i, :, :] is A[i]; A[i, ...] as well."""
        if i[0] != 'tuple' or not i[1]:
            return i
        xs, n, dots = list(i[1]), self.ndim(b), c(Ellipsis)
        if xs.count(dots) == 1 and n is not None and not any(x[0] == 'star' or x == NONE for x in xs):
            k = xs.index(dots)
            xs[k:k + 1] = [FULL] * (n - len(xs) + 1)
        while len(xs) > 1 and xs[-1] in (FULL, dots) and dots not in xs[:-1]:
            xs.pop()
        return ('tuple', tuple(xs)) if len(xs) > 1 else xs[0]

    def index(self, b, i):
        i = self.subscripts(b, i)
        if b[0] == 'attr' and b[2] == 'loc' and i[0] == 'tuple' and len(i[1]) == 2 and i[1][1][0] == 'c' and isinstance(i[1][1][1], str) and i[1][0][0] != 'slice':
            return self.index(self.index(b[1], i[1][0]), i[1][1])           # rows, then a column
        if i == BACKWARDS:
            r = seqof(b)
            if r[0] == 'call' and r[1] == 'range' and len(r[2]) in (1, 2):
                lo, hi = (c(0), r[2][0][1]) if len(r[2]) == 1 else (r[2][0][1], r[2][1][1])
                return ('call', 'range', ((0, psub(hi, c(1))), (1, psub(lo, c(1))), (2, c(-1))))
        if i[0] == 'slice':
            if i == ('slice', NONE, NONE, NONE) and b[0] != 'p':
                return b if b[0] in ('tuple', 'list') else ('slice_of', b, NONE, NONE)
            it = items(b)
            if it is not None and all(x == NONE or isint(x) for x in i[1:]) and not any(x[0] == 'star' for x in it):
                return (b[0], tuple(it[slice(*[x[1] for x in i[1:]])]))
            if i[3] in (NONE, c(1)):
                lo = NONE if i[1] == c(0) else i[1]
                hi = NONE if i[2] == self.length(b) else i[2]
                return ('slice_of', b, lo, hi)
            return ('idx', b, i)
        it = items(b)
        if it is not None and isint(i) and -len(it) <= i[1] < len(it) and not any(x[0] == 'star' for x in it):
            return it[i[1]]
        s = b
        if s[0] == 'comp' and s[1] in ('list', 'gen') and len(s[2]) == 1 and not s[4]:
            L = self.res.loops.get(s[2][0])
            if L is not None and L.step == c(1) and not isint(i):
                return subst(s[3], {('iv', L.id): padd(L.lo, i)})
            if L is not None and L.step == c(1) and isint(i) and i[1] >= 0:
                return subst(s[3], {('iv', L.id): padd(L.lo, i)})
        if s[0] == 'slice_of' and s[3] in (NONE,) and isint(s[2]) and s[2][1] >= 0 and (not isint(i) or i[1] >= 0):
            return self.index(s[1], padd(s[2], i))
        if s[0] == 'slice_of' and s[2] == NONE and (not isint(i) or i[1] >= 0):
            return self.index(s[1], i)
        if s[0] == 'slice_of' and i[0] in ('iv', 'poly') and any(x[0] == 'iv' for x in subterms(i)) and s[2][0] in ('p', 'iv', 'poly', 'attr'):
            return self.index(s[1], padd(s[2], i))
        if s[0] == 'call' and s[1] in ('tuple', 'list') and len(s[2]) == 1:
            return self.index(s[2][0][1], i)
        return ('idx', b, i)

    def e_Slice(self, n, env):
        return ('slice',) + tuple(self.ev(x, env) if x is not None else NONE for x in (n.lower, n.upper, n.step))

    def e_Tuple(self, n, env):
        return ('tuple', self.elements(n, env))

    def elements(self, n, env):
        out = []
        for x in n.elts:
            v = self.ev(x, env)
            if v[0] == 'star' and v[1][0] in ('tuple', 'list'):
                out += v[1][1]
            else:
                out.append(v)
        return tuple(out)

    def e_List(self, n, env):
        t = self.elements(n, env)
        if not t:
            return self.obj('list', n)
        return ('list', t)

    def obj(self, kind, n):
        k = self.fresh()
        t = ('obj', k, kind)
        self.res.born[t] = (self.ctx, (kind, ()))
        return t

    def e_Set(self, n, env):
        return ('set', tuple(self.ev(x, env) for x in n.elts))

    def e_Dict(self, n, env):
        if not n.keys:
            return self.obj('dict', n)
        return ('dict', tuple((self.ev(k, env) if k is not None else ('star', c('**')), self.ev(v, env)) for k, v in zip(n.keys, n.values)))

    def e_Starred(self, n, env):
        return ('star', self.ev(n.value, env))

    def comp(self, n, env, kind, elt):
        base = self.ctx
        g = n.generators[0]
        if kind in ('list', 'gen') and len(n.generators) == 1 and not g.ifs and isinstance(g.iter, (ast.List, ast.Tuple)) and 0 < len(g.iter.elts) <= 6 \
                and not any(isinstance(x, ast.Starred) for x in g.iter.elts):
            # each of the things written out
            return ('tuple' if kind == 'gen' else 'list', tuple(elt(self.assign(g.target, self.ev(x, env), dict(env), n, None)) for x in g.iter.elts))
        ids, conds = [], []
        e = dict(env)

        def one(g, e):
            if isinstance(g.iter, ast.GeneratorExp) or isinstance(g.iter, ast.ListComp):
                x = dict(e)
                for h in g.iter.generators:
                    x = one(h, x)
                e = self.assign(g.target, self.ev(g.iter.elt, x), e, n, None)
            else:
                L, item = self.iterate(g.iter, e)
                L.count = ('iv', L.id)
                self.ctx = self.ctx + tuple(('loop', i) for i in L.pre) + (('loop', L.id),)
                e = self.assign(g.target, item, e, n, None)
                ids.extend(list(L.pre) + [L.id])
            for i in g.ifs:
                cd = self.cond(i, e)
                conds.append(cd)
                self.push(cd)
            return e
        for g in n.generators:
            e = one(g, e)
        v = elt(e)
        self.ctx = base
        conds = tuple(x for x in conds if x != TRUE)
        # [x for x in xs] is xs
        if kind == 'list' and len(ids) == 1 and not conds and self.res.loops[ids[0]].kind == 'seq' and self.res.loops[ids[0]].it is not None and v == ('idx', self.res.loops[ids[0]].it, ('iv', ids[0])):
            return ('call', 'list', ((0, self.res.loops[ids[0]].it),))
        return ('comp', kind, tuple(ids), v, conds)

    def e_ListComp(self, n, env):
        return self.comp(n, env, 'list', lambda e: self.ev(n.elt, e))

    def e_GeneratorExp(self, n, env):
        return self.comp(n, env, 'gen', lambda e: self.ev(n.elt, e))

    def e_SetComp(self, n, env):
        return self.comp(n, env, 'set', lambda e: self.ev(n.elt, e))

    def e_DictComp(self, n, env):
        return self.comp(n, env, 'dict', lambda e: ('kv', self.ev(n.key, e), self.ev(n.value, e)))

    def e_Lambda(self, n, env):
        g = next((h for h in self.p.funcs if h.node is n), None)
        return self.closure(g, env) if g is not None else ('opaque', self.fresh())

    def e_IfExp(self, n, env):
        cd = self.cond(n.test, env)
        base = self.ctx
        a = b = None
        if cd != FALSE:
            self.push(cd)
            a = self.ev(n.body, env)
            self.ctx = base
        if cd != TRUE:
            self.push(neg(cd))
            b = self.ev(n.orelse, env)
            self.ctx = base
        return a if b is None else b if a is None else self.phi(cd, a, b)

    def e_BoolOp(self, n, env):
        if all(self.tk(v) <= {'bool'} and self.tk(v) or isinstance(v, (ast.Compare, ast.BoolOp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) for v in n.values):
            return self.cond(n, env)
        base, vals = self.ctx, []
        for v in n.values:
            t = self.ev(v, env)
            vals.append((t, self.truth(t, self.tk(v))))
            self.push(vals[-1][1] if isinstance(n.op, ast.And) else neg(vals[-1][1]))
        self.ctx = base
        out = vals[-1][0]
        for t, cd in reversed(vals[:-1]):
            out = self.phi(cd, out, t) if isinstance(n.op, ast.And) else self.phi(cd, t, out)
        return out

    def e_UnaryOp(self, n, env):
        if isinstance(n.op, ast.Not):
            return self.cond(n, env)
        t = self.ev(n.operand, env)
        if isinstance(n.op, ast.USub):
            if t[0] == 'c' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
                return c(-t[1])
            k = self.tk(n.operand)
            if k <= NUM and k or t[0] == 'poly':
                return pneg(t)
            return ('op', 'neg', t, NONE)
        if isinstance(n.op, ast.UAdd):
            return t
        return ('op', 'inv', t, NONE)

    def e_Compare(self, n, env):
        l, lk = self.now(self.ev(n.left, env)), self.tk(n.left)
        out = []
        for o, r in zip(n.ops, n.comparators):
            t, rk = self.now(self.ev(r, env)), self.tk(r)
            out.append(self.compare(CMP[type(o)], l, t, lk, rk))
            l, lk = t, rk
        return conj(out)

    def intlike(self, t, k):
        return isint(t) or t[0] in ('poly', 'iv') or self.option(t) or k and k <= {'int', 'bool'} or t[0] == 'call' and t[1] in INT_CALLS

    def option(self, t):
        """A command-line option declared as an integer."""
        return t[0] == 'attr' and t[2] in options(self.p) and (t[1][0] == 'glob' or t[1][0] == 'call' and t[1][1].endswith('parse_args'))

    def compare(self, op, a, b, ak, bk):
        if op in ('is', 'is not') and a[0] == 'c' and b[0] == 'c':
            return c((a[1] is b[1]) == (op == 'is'))
        if op in ('in', 'not in') and b[0] in ('tuple', 'list') and 0 < len(b[1]) <= 4 and all(x[0] in ('tuple', 'list') and all(y[0] == 'c' for y in x[1]) for x in b[1]):
            r = disj([self.compare('==', a, x, ak, set()) for x in b[1]])
            return r if op == 'in' else neg(r)
        ia, ib = self.intlike(a, ak), self.intlike(b, bk)
        if 'ndarray' in ak | bk:
            ia = ib = False
        ints = ia and ib or (ia and (not bk or bk == {'none'}) or ib and not ak) and (isint(a) or isint(b) or ia and ib)
        if a[0] in ('tuple', 'list') and b[0] == a[0] and op in ('==', '!=') and len(a[1]) == len(b[1]) and not any(x[0] == 'star' for x in a[1] + b[1]):
            r = conj([self.compare('==', x, y, set(), set()) for x, y in zip(a[1], b[1])])
            return r if op == '==' else neg(r)
        if ints and op in ('<', '<=', '>', '>=', '==', '!='):
            d = psub(a, b)
            return {'<': lambda: ge0(psub(pneg(d), c(1))), '<=': lambda: ge0(pneg(d)), '>': lambda: ge0(psub(d, c(1))), '>=': lambda: ge0(d), '==': lambda: eq0(d), '!=': lambda: neg(eq0(d))}[op]()
        if op in ('>', '>='):
            op, a, b = {'>': '<', '>=': '<='}[op], b, a
        if op in ('==', '!=') and (a[:2] == ('tuple', ()) or b[:2] == ('tuple', ())):
            x = b if a[:2] == ('tuple', ()) else a
            t = eq0(self.length(x)) if x[0] != 'c' else ('cmp', op, a, b)
            return t if op == '==' or x[0] == 'c' else neg(t)
        if op in ('==', '!=') and a == b and a[0] in ('p', 'attr', 'c', 'tuple', 'call', 'class'):
            return c(op == '==')
        if op in ('==', '!=') and a[0] == 'c' and b[0] == 'c':
            return c((a[1] == b[1]) == (op == '=='))
        if op in ('==', '!=', 'is', 'is not') and repr(b) < repr(a) and not b[0] == 'c':
            a, b = b, a
        return ('cmp', op, a, b)

    def e_BinOp(self, n, env):
        a, b = self.now(self.ev(n.left, env)), self.now(self.ev(n.right, env))
        t = self.binop(OPS[type(n.op)], a, b, self.tk(n.left), self.tk(n.right), n)
        if t[0] == 'op' and t[1] == '+' and (self.additive(n.left) or self.additive(n.right)):
            self.res.commutes.add(t)
        return t

    def additive(self, node):
        """An instance of a class of the project that has sums, opposites or differences: an additive group."""
        ks = [t[1] for t in self.types(node) if t[0] == 'inst']
        return bool(ks) and all(k.find_method('__add__') is not None and (k.find_method('__neg__') or k.find_method('__sub__')) is not None for k in ks)

    def binop(self, op, a, b, ka, kb, n):
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            try:
                r = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '//': lambda x, y: x // y, '%': lambda x, y: x % y, '/': lambda x, y: x / y,
                     '**': lambda x, y: x ** y if abs(y) < 64 and abs(x) < 1e6 else None}.get(op, lambda x, y: None)(a[1], b[1])
                if r is not None:
                    return c(r)
            except (ArithmeticError, TypeError):
                pass
        if op in ('>>', '<<') and isint(b) and b[0] == 'c' and 0 <= b[1] < 64 and 'ndarray' not in ka:
            op, b = ('//' if op == '>>' else '*'), c(2 ** b[1])
        if op == '&' and b[0] == 'c' and isint(b) and b[1] > 0 and b[1] & b[1] + 1 == 0 and 'ndarray' not in ka:
            op, b = '%', c(b[1] + 1)
        na = isint(a) or a[0] in ('poly', 'iv') or self.option(a) or bool(ka) and ka <= NUM
        nb = isint(b) or b[0] in ('poly', 'iv') or self.option(b) or bool(kb) and kb <= NUM
        if op in ('+', '-') and (na and nb or na and not kb or nb and not ka or na and b[0] in ('mu', 'iv', 'fin') or nb and a[0] in ('mu', 'iv', 'fin')):
            return padd(a, b, 1 if op == '+' else -1)
        if op in ('+',) and a[0] in ('tuple', 'list') and b[0] == a[0]:
            return (a[0], a[1] + b[1])
        if op == '*' and (na and nb or na and not kb or nb and not ka):
            return pmul(a, b)
        if op == '+' and b == c(0):
            return a
        if op == '+' and ka | kb and (ka | kb) & {'list', 'tuple', 'tup', 'seq'} or op == '+' and (a[0] in ('tuple', 'list', 'slice_of') or b[0] in ('tuple', 'list')):
            parts = []
            for x in (a, b):
                parts += list(x[1]) if x[0] == 'cat' else [x]
            return ('cat', tuple(parts))
        if op == '*' and na and kb and kb <= {'list', 'tuple', 'tup', 'seq', 'str'}:
            a, b = b, a
        if op == '**' and b == c(1) and na:
            return a
        if op == '**' and b == c(2) and na:
            return pmul(a, a)
        # user-defined operators of the project
        t = ('op', op, a, b)
        tg = self.an.callees.get(n) or []
        self.emit('binop', n, term=t, op=op, left=a, right=b)
        return t

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env[n.target.id] = v
        return v

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else NONE
        self.emit('yield', n, value=v)
        self.res.yields.append((self.ctx, v, n))
        return ('opaque', self.fresh())

    def e_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        L, item = self.iter_term(v, n)
        L.count = ('iv', L.id)
        base = self.ctx
        self.ctx = base + tuple(('loop', i) for i in L.pre) + (('loop', L.id),)
        self.emit('yield', n, value=item, whole=v)
        self.res.yields.append((self.ctx, item, n))
        self.ctx = base
        return ('opaque', self.fresh())

    # ---- calls
    def inlinable(self, g, node=None):
        if g in self.stack or len(self.stack) > self.maxdepth or g.is_gen or g.abstract or g.short in self.keep:
            return False
        if g.short in self.inline or g.qual in self.inline:
            return True
        if isinstance(g.node, ast.Lambda):
            return True
        if g.parent is not None:
            return not g.cached
        return (g.short not in self.vocab or self.accessor(g)) and not g.cached and not g.inst_cached

    def accessor(self, g):
        """One small expression of the arguments: a name for it, whoever declares it."""
        k = self.accessors.get(g)
        if k is None:
            body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] if isinstance(g.node, ast.FunctionDef) else []
            k = len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and not any(
                isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.JoinedStr, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(body[0])) and sum(
                1 for x in ast.walk(body[0].value) if isinstance(x, ast.expr)) <= 12 and not any(
                isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len') for x in ast.walk(body[0]))
            self.accessors[g] = k
        return k

    def bindargs(self, g, pos, kw, recv=None):
        """Parameter name -> term, or None when the binding is not known."""
        ps = list(g.params)
        out = {}
        if recv is not None and ps:
            out[ps.pop(0)] = recv
        i = 0
        for a in pos:
            if a[0] == 'star':
                return None
            if i < len(ps):
                out[ps[i]] = a
                i += 1
            elif g.vararg:
                out.setdefault(g.vararg, ('tuple', ()))
                out[g.vararg] = ('tuple', out[g.vararg][1] + (a,))
            else:
                return None
        for k, v in kw.items():
            if k is None:
                return None
            if k not in ps and k not in g.kwonly:
                if g.kwarg:
                    out[k] = v
                    continue
                return None
            out[k] = v
        for k in ps + g.kwonly:
            if k not in out:
                if k not in g.defaults:
                    return None
                d = g.defaults[k]
                out[k] = c(d.value) if isinstance(d, ast.Constant) else self.default(g, d)
        if g.vararg and g.vararg not in out:
            out[g.vararg] = ('tuple', ())
        return out

    def default(self, g, d):
        f, self.f = self.f, g
        try:
            cx = len(self.res.events)
            v = self.ev(d, {})
            del self.res.events[cx:]
            return v
        finally:
            self.f = f

    def inline_call(self, g, bound, node, cap=None):
        sv = (self.f, self.rets, self.ctx, dict(self.heap), len(self.res.events), len(self.res.yields), getattr(self, 'conts', []))
        loops0 = set(self.res.loops)
        self.f, self.rets = g, []
        self.stack.append(g)
        self.conts = []
        env = dict(cap or {})
        env.update(bound)
        base = self.ctx
        try:
            if isinstance(g.node, ast.Lambda):
                v = self.ev(g.node.body, env)
                return v
            out = self.block(g.node.body, env)
            rets = [r for r in self.rets]
            if out is not None:
                rets.append((self.ctx, NONE, g.node))
            if not rets:
                # always raises
                return ('never', self.fresh())
            nb = len(base)
            rel = []
            for cx, v, _ in rets:
                fr = cx[nb:]
                rel.append((fr, v))
            raised = any(e.kind == 'raise' for e in self.res.events[sv[4]:])
            inloop = [r for r in rel if any(x[0] in ('loop', 'try', 'except', 'with') for x in r[0])]
            if inloop:
                # for x in xs: if bad(x): return False / return True
                if len(rel) == 2 and len(inloop) == 1 and rel[0] is inloop[0] and rel[0][1] in (TRUE, FALSE) and rel[1][1] == neg(rel[0][1]):
                    fr = rel[0][0]
                    ls = [x for x in fr if x[0] == 'loop']
                    pre = []
                    for x in fr:
                        if x[0] == 'loop':
                            break
                        pre.append(x[1])
                    cd = conj([x[1] for x in fr[len(pre):] if x[0] == 'if'])
                    for L in reversed(ls):
                        cd = ('exists', L[1], cd)
                    cd = conj([p for p in pre if isinstance(p, tuple)] + [cd])
                    v = cd if rel[0][1] == TRUE else neg(cd)
                    self.ctx = base
                    return v
                if not all(v == NONE for _, v in rel):
                    # not expressible: keep it as an opaque call whose effects have been recorded
                    self.ctx = base
                    return ('opq', g.short, tuple(sorted(bound.items(), key=lambda x: x[0])))
            conds = [conj([x[1] for x in fr if x[0] == 'if']) for fr, _ in rel]
            self.ctx = base
            if raised and not inloop:
                self.push(disj(conds))
            v = rel[-1][1]
            for cd, (fr, t) in zip(reversed(conds[:-1]), reversed(rel[:-1])):
                v = self.phi(cd, t, v)
            return v
        finally:
            self.stack.pop()
            self.f, self.rets = sv[0], sv[1]
            self.conts = sv[6]
            if isinstance(g.node, ast.Lambda):
                self.ctx = base

    def apply(self, fn, args, node=None):
        """Value of calling a function term on argument terms, when it can be looked through."""
        if fn[0] == 'fn':
            g, env = self.closures[fn[1]]
            b = self.bindargs(g, args, {})
            if b is not None and self.inlinable(g):
                return self.inline_call(g, b, node, env)
        if fn[0] == 'func':
            g = self.p.func(fn[1])
            if g is not None:
                b = self.bindargs(g, args, {})
                if b is not None and self.inlinable(g):
                    return self.inline_call(g, b, node)
                if b is not None:
                    return ('call', g.short, tuple(b.items()))
        return None

    def e_Call(self, n, env):
        fn = n.func
        ft = self.ev_callee(fn, env)
        pos = [self.ev(a, env) for a in n.args]
        flat = []
        for a in pos:
            if a[0] == 'star' and items(a[1]) is not None and not any(x[0] == 'star' for x in items(a[1])):
                flat += list(items(a[1]))
            else:
                flat.append(a)
        pos = flat
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords}
        # closures
        if ft is not None and ft[0] == 'fn':
            g, cenv = self.closures[ft[1]]
            b = self.bindargs(g, pos, kw)
            if b is not None and self.inlinable(g):
                return self.inline_call(g, b, n, {**cenv, **{k: v for k, v in env.items() if k in cenv}} if self.f is g.parent else cenv)
            return self.callterm(n, g.short, b, pos, kw, [g])
        v = self.an.vals.get(fn)
        tys = v.types if v is not None else frozenset()
        funcs = [t[1] for t in tys if t[0] in ('func', 'bound')]
        classes = [t[1] for t in tys if t[0] == 'class']
        recv = None
        if isinstance(fn, ast.Attribute):
            recv = ft[1] if ft is not None and ft[0] == 'method' else None
        # super().__init__ and friends
        if classes and not funcs:
            return self.construct(n, classes, ft, pos, kw)
        if ft is not None and ft[0] == 'func' and not funcs:
            g = self.p.func(ft[1])
            funcs = [g] if g is not None else []
        if funcs and not classes:
            funcs = list(dict.fromkeys(funcs))
            g = funcs[0]
            bt = next((t for t in tys if len(t) > 1 and t[1] is g), None)
            r = None
            if recv is not None and g.kind == 'method' and not (recv[0] == 'class'):
                r = recv
            elif g.kind == 'class':
                r = recv if recv is not None else ft if ft is not None and ft[0] == 'class' else ('class', g.cls.qual)
            b = self.bindargs(g, pos, kw, r)
            if len(funcs) == 1 and self.inlinable(g) and b is not None:
                return self.inline_call(g, b, n)
            name = g.short if len(funcs) == 1 else self.common(funcs)
            if b is not None and r is not None and g.params:
                b = {('self' if k == g.params[0] else k): v for k, v in b.items()}
            if r is not None and b is None:
                pos = [r] + pos
            return self.callterm(n, name, b, pos, kw, funcs)
        ext = next((t[1] for t in tys if t[0] == 'ext'), None)
        if ext is None and ft is not None and ft[0] in ('ext',):
            ext = ft[1]
        if ft is not None and ft[0] == 'bi':
            return self.builtin(n, ft[1], pos, kw, env)
        if ext is not None and recv is None:
            return self.extcall(n, ext, pos, kw)
        if isinstance(fn, ast.Attribute) and recv is not None:
            return self.methcall(n, fn.attr, recv, pos, kw, self.tk(fn.value))
        b = tuple(enumerate(pos)) + tuple(sorted(kw.items(), key=lambda x: str(x[0])))
        t = ('call', '?', (('self', ft if ft is not None else ('opaque', self.fresh())),) + b)
        self.emit('call', n, term=t, name='?', targets=[], callee=ft)
        return t

    def common(self, funcs):
        names = {g.name for g in funcs}
        if len(names) == 1:
            # the class that declares it for all of them
            cands = [c2 for c2 in funcs[0].cls.mro() if all(g.cls is not None and c2 in g.cls.mro() for g in funcs)] if funcs[0].cls is not None else []
            if cands:
                q = cands[-1].qual
                return (q[5:] if q.startswith('peyl.') else q) + '.' + funcs[0].name
            return '*.' + funcs[0].name
        return '|'.join(sorted(g.short for g in funcs))

    def ev_callee(self, fn, env):
        if isinstance(fn, ast.Attribute):
            d = dotted(fn)
            root = d.split('.')[0] if d else None
            if root is not None and root not in env and root not in local_names(self.f):
                r = self.p.resolve_dotted(self.f.mod, d)
                if r is not None and r[0] == 'func':
                    if r[1].kind == 'class':
                        return ('method', self.ev(fn.value, env), fn.attr)
                    return ('func', r[1].short)
                if r is not None and r[0] == 'class':
                    return ('class', r[1].qual)
                if r is not None and r[0] in ('ext', 'mod'):
                    return ('ext', r[1])
            b = self.ev(fn.value, env)
            h = self.getattr(b, fn.attr)
            if h[0] in ('fn', 'func', 'class'):
                return h
            return ('method', b, fn.attr)
        return self.ev(fn, env)

    def callterm(self, n, name, b, pos, kw, targets):
        args = tuple(b.items()) if b is not None else tuple(enumerate(pos)) + tuple(sorted(((k or '**', v) for k, v in kw.items()), key=lambda x: x[0]))
        impure = any(self.impure(g) for g in targets)
        given = args
        args = tuple((k, self.now(v)) for k, v in args)
        t = ('call', name, args) + ((self.fresh(),) if impure else ())
        e = self.emit('call', n, term=t, name=name, targets=targets)
        if impure and b is not None:
            names = {o[1] for g in targets for (o, _, _, _) in self.an.sum[g].muts if o[0] == 'p'} | ({'self'} if any(o[0] == 'p' and o[1] == g.receiver() for g in targets for (o, _, _, _) in self.an.sum[g].muts) else set())
            for k, v in given:
                v = bare(v)
                if k in names and v[0] in ('idx', 'attr', 'obj', 'p', 'free', 'glob'):
                    self.res.events.pop()
                    self.touch(e, v)
                    self.res.events.append(e)
                    e.whole.add(v)
                    e.sizes.add(v)
        if impure:
            touched = {a for _, a in args}
            for k in [k for k in self.heap if any(contains(k[0], a) or a == k[0] for a in touched if a[0] not in ('c',))]:
                del self.heap[k]
        return t

    def impure(self, g):
        s = self.an.sum[g]
        return bool(s.muts) or s.io

    def construct(self, n, classes, ft, pos, kw):
        k = classes[0]
        ini = k.find_method('__init__')
        b = None
        if ini is not None:
            b = self.bindargs(ini, pos, kw, ('newobj',))
            if b is not None:
                b.pop(ini.params[0], None)
        else:
            fs = k.fields()
            if fs:
                names = [x for x, _, d in fs if not (isinstance(d, ast.Call) and any(q.arg == 'init' and isinstance(q.value, ast.Constant) and not q.value.value for q in d.keywords))]
                if len(pos) <= len(names) and not any(a[0] == 'star' for a in pos) and None not in kw:
                    b = dict(zip(names, pos))
                    b.update(kw)
                    for x, _, d in fs:
                        if x in names and x not in b and d is not None:
                            b[x] = c(d.value) if isinstance(d, ast.Constant) else ('dflt', k.qual, x)
        args = tuple(b.items()) if b is not None else tuple(enumerate(pos)) + tuple(sorted(((q or '**', v) for q, v in kw.items()), key=lambda x: x[0]))
        t = ('new', k.qual, args)
        self.emit('new', n, term=t, name=k.qual, classes=classes, bound=b is not None, exact=not (ft is not None and ft[0] != 'class'))
        return t

    def builtin(self, n, name, pos, kw, env):
        if name == 'len' and len(pos) == 1:
            return self.length(pos[0])
        if name in ('int', 'bool') and len(pos) == 1 and pos[0][0] in ('poly', 'iv'):
            return pos[0]
        if name in ('max', 'min') and len(pos) > 1 and not kw:
            return (name, tuple(sorted(set(pos), key=repr))) if len(set(pos)) > 1 else pos[0]
        if name in ('all', 'any') and len(pos) == 1 and pos[0][0] == 'comp':
            cp = pos[0]
            r = self.truth(cp[3])
            if name == 'all':
                r = disj([neg(x) for x in cp[4]] + [r])
                for L in reversed(cp[2]):
                    r = ('forall', L, r)
            else:
                r = conj(list(cp[4]) + [r])
                for L in reversed(cp[2]):
                    r = ('exists', L, r)
            return r
        if name == 'isinstance' and len(pos) == 2:
            ks = items(pos[1]) or (pos[1],)
            return disj([('isinst', pos[0], k) for k in ks])
        if name in ('list', 'dict', 'set') and not pos and not kw:
            return self.obj(name, n)
        if name == 'filter' and len(pos) == 2 and pos[0] != NONE:
            L, item = self.iter_term(pos[1], n)
            L.count = ('iv', L.id)
            r = self.apply(pos[0], [item], n)
            if r is not None:
                return ('comp', 'gen', tuple(L.pre) + (L.id,), item, (self.truth(r),))
        if name == 'map' and len(pos) >= 2 and not any(x[0] == 'star' for x in pos):
            L, item = self.iter_term(pos[1] if len(pos) == 2 else ('call', 'zip', tuple(enumerate(pos[1:]))), n)
            L.count = ('iv', L.id)
            r = self.apply(pos[0], [item] if len(pos) == 2 else list(item[1]), n)
            if r is not None:
                return ('comp', 'gen', (L.id,), r, ())
        if name in ('tuple', 'list') and len(pos) == 1 and pos[0][0] == 'tuple':
            return (name, pos[0][1])
        if name in ('tuple', 'list') and len(pos) == 1 and pos[0][0] == 'list' and name == 'tuple':
            return ('tuple', pos[0][1])
        if name == 'pow' and len(pos) == 2:
            return self.binop('**', pos[0], pos[1], set(), set(), n)
        if name == 'getattr' and len(pos) >= 2 and pos[1][0] == 'c' and isinstance(pos[1][1], str):
            return self.getattr(pos[0], pos[1][1])
        args = tuple(enumerate(self.now(x) for x in pos)) + tuple(sorted(((k or '**', v) for k, v in kw.items()), key=lambda x: x[0]))
        impure = name in ('next', 'input', 'open')
        t = ('call', name, args) + ((self.fresh(),) if impure else ())
        self.emit('call', n, term=t, name=name, targets=[])
        return t

    def extcall(self, n, name, pos, kw):
        short = name.split('.')[-1]
        if name.startswith('numpy.') and short in NP_SIG:
            if short in ('amax', 'amin'):
                short = short[1:]
            args = []
            for i, a in enumerate(pos):
                args.append((NP_SIG[short][i] if i < len(NP_SIG[short]) else i, a))
            args += sorted(((k or '**', v) for k, v in kw.items()), key=lambda x: x[0])
            return self.npcall(n, short, args)
        if name == 'collections.defaultdict':
            t = self.obj('dict', n)
            self.res.born[t] = (self.ctx, ('call', name, tuple(enumerate(pos))))
            return t
        if name in ('pandas.DataFrame.from_dict', 'pandas.DataFrame') and (len(pos) == 1 and not kw or not pos and set(kw) == {'data'}):
            name, pos, kw = 'pandas.DataFrame', pos or [kw['data']], {}
        if not name.startswith(('heapq.', 'random.')):
            pos = [self.now(x) for x in pos]
        args = tuple(enumerate(pos)) + tuple(sorted(((k or '**', v) for k, v in kw.items()), key=lambda x: x[0]))
        if name == 'heapq.heapreplace' and len(pos) == 2 and not kw:
            v = self.extcall(n, 'heapq.heappop', pos[:1], {})
            self.extcall(n, 'heapq.heappush', pos, {})
            return v
        impure = name.startswith(('random.', 'time.', 'heapq.', 'sqlite3.'))
        t = ('call', name, args) + ((self.fresh(),) if impure else ())
        self.emit('call', n, term=t, name=name, targets=[])
        return t

    def npcall(self, n, short, args):
        if short in ('maximum', 'minimum') and len(args) == 2:
            t = (short[:3], tuple(sorted((a for _, a in args), key=repr)))
            return t
        if short in ('mod', 'remainder') and len(args) == 2:
            t = ('op', '%', args[0][1], args[1][1])
            self.emit('binop', n, term=t, op='%', left=args[0][1], right=args[1][1])
            return t
        if short == 'clip':
            kw = {{'a_min': 'min', 'a_max': 'max'}.get(k, k): v for k, v in args}
            if set(kw) <= {'a', 'min', 'max'} and 'a' in kw:
                t = kw['a']
                for k, how in (('min', 'max'), ('max', 'min')):
                    if kw.get(k) not in (None, NONE):
                        t = (how, tuple(sorted((t, kw[k]), key=repr)))
                return t
        args = [(k, self.now(v)) for k, v in args]
        if short == 'reshape':
            args = [x for x in args if x != ('order', c('C'))]
        t = ('call', 'numpy.' + short, tuple(args))
        if short in ('zeros', 'empty', 'ones', 'full', 'zeros_like', 'array', 'copy'):
            t = t + (self.fresh(),)
        self.emit('call', n, term=t, name='numpy.' + short, targets=[])
        return t

    def methcall(self, n, name, recv, pos, kw, tk):
        if name in ND_METHODS and name in NP_SIG and ('ndarray' in tk or name in ND_ONLY and not any(k == 'inst' for k in tk)):
            sig = NP_SIG[name]
            args = [(sig[0], recv)]
            for i, a in enumerate(pos):
                args.append((sig[i + 1] if i + 1 < len(sig) else i + 1, a))
            args += sorted(kw.items())
            return self.npcall(n, name, args)
        args = (('self', recv),) + tuple(enumerate(pos)) + tuple(sorted(((k or '**', v) for k, v in kw.items()), key=lambda x: x[0]))
        MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault', 'popitem', 'popleft', 'appendleft', 'fill'}
        pure = name in ('get', 'items', 'keys', 'values', 'copy', 'index', 'count', 'startswith', 'endswith', 'split', 'join', 'strip', 'format', 'tobytes', 'tolist', 'item', 'union', 'intersection', 'difference',
                        'sort_values', 'cumsum', 'transpose', 'itertuples', 'flatten', 'ravel')
        if name not in MUT:
            args = tuple((k, self.now(v)) for k, v in args)
        else:
            args = (('self', bare(recv)),) + args[1:]
        t = ('call', '.' + name, args) + (() if pure else (self.fresh(),))
        if name in MUT:
            self.emit('mut', n, base=recv, name=name, args=args[1:], term=t)
        self.emit('call', n, term=t, name='.' + name, targets=[])
        return t
