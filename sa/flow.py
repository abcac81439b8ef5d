"""E1: interprocedural effect / alias / dependence / type summaries.

One abstract value V = (types, origins, deps).
  origins: which existing objects the value may be:  ('p',param,path) ('cap',var,path) ('cache',func,path)
           ('glob',name,path) ('cls',name,path) or a local allocation ('alloc',site,exposed).
  deps:    access paths (same shapes) the value was computed from (data and control flow).
Every function is analysed once with symbolic parameters; calls instantiate the callee's summary by substituting the
actual values for the parameters (context-sensitive in the arguments), iterated to a fixpoint over the call graph.
"""
from __future__ import annotations
import ast, builtins
from .front import *

F = frozenset
EMPTY = F()
MAXPATH = 6
MUTABLE_T = {'list', 'set', 'dict', 'ndarray', 'deque', 'frame', 'bytearray'}


class V:
    __slots__ = ('types', 'orig', 'deps')

    def __init__(self, types=EMPTY, orig=EMPTY, deps=EMPTY):
        self.types, self.orig, self.deps = types, orig, deps

    def __eq__(self, o):
        return isinstance(o, V) and (self.types, self.orig, self.deps) == (o.types, o.orig, o.deps)

    def __hash__(self):
        return hash((self.types, self.orig, self.deps))

    def __repr__(self):
        return f'V({set(self.types)},{set(self.orig)},{set(self.deps)})'

    def withdeps(self, d):
        return self if d <= self.deps else V(self.types, self.orig, self.deps | d)


BOT = V()


def join(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return BOT
    if len(vs) == 1:
        return vs[0]
    t, o, d = set(), set(), set()
    for v in vs:
        t |= v.types
        o |= v.orig
        d |= v.deps
    return V(F(t), F(o), F(d))


def T(*names):
    return F((n,) for n in names)


INT, BOOL, FLOAT, STR, NONE, ANY = T('int'), T('bool'), T('float'), T('str'), T('none'), T('any')
NDARRAY = T('ndarray')
SCALAR = {'int', 'bool', 'float', 'str', 'bytes', 'none', 'notimpl', 'slice', 'ellipsis', 'range'}


def symbolic(o):
    return o[0] != 'alloc'


def ext(o, step):
    if len(o[2]) >= MAXPATH:
        return o
    return (o[0], o[1], o[2] + (step,))


# trees: reified values in summaries: (types, orig, deps, contents tuple((step, tree)...), fresh)
TBOT = (EMPTY, EMPTY, EMPTY, (), False)


def tjoin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    ca, cb = dict(a[3]), dict(b[3])
    for k, v in cb.items():
        ca[k] = tjoin(ca.get(k), v)
    return (a[0] | b[0], a[1] | b[1], a[2] | b[2], tuple(sorted(ca.items(), key=lambda kv: kv[0])), a[4] or b[4])


class Summary:
    def __init__(self):
        self.ret = None            # tree or None (never returns a value)
        self.yields = None         # tree of yielded elements
        self.muts = {}             # (origin, step, kind, where) -> tree or None
        self.effdeps = EMPTY       # deps that reach an effect (mutation of outside state, I/O, unknown callee)
        self.guard = EMPTY         # deps of conditions that only decide raise/assert
        self.io = False
        self.exposed = {}          # where -> description: mutation of an object already handed out by yield
        self.exposes = EMPTY       # captured/param origins that are yielded as such
        self.reads = EMPTY         # symbolic paths read at all (for cache keys)

    def key(self):
        return (self.ret, self.yields, tuple(sorted(((str(k), v) for k, v in self.muts.items()), key=lambda x: x[0])),
                self.effdeps, self.guard, self.io, tuple(sorted(self.exposed.items())), self.exposes, self.reads)


class Analyzer:
    def __init__(self, prog):
        self.p = prog
        self.sum = {f: Summary() for f in prog.funcs}
        self.param_types = {}      # (func, param) -> types seen at call sites
        self.attr_types = {}       # (classqual, attr) -> types stored
        self.attr_elem = {}        # (classqual, attr) -> element types
        self.vals = {}             # expr node -> V
        self.stores = {}           # (func, target node) -> (container V, key deps, value deps, path-condition deps)
        self.callees = {}          # Call node -> list of Func
        self.calls_in = {}         # Func -> list of (Call node, [Func], ext name)
        self.glob_types = {}
        self.twins = []            # (reference definition, function it describes)
        self.subclasses = {}
        for c in prog.all_classes:
            for b in c.mro():
                self.subclasses.setdefault(b, []).append(c)

    def run(self, rounds=12):
        for r in range(rounds):
            changed = False
            before = (dict(self.param_types), dict(self.attr_types), dict(self.attr_elem))
            for f in self.p.funcs:
                fa = FuncAnalysis(self, f)
                s = fa.run()
                if s.key() != self.sum[f].key():
                    changed = True
                self.sum[f] = s
            for f, g in self.twins:
                # a reference definition is typed like the function it describes
                for a, b in zip(f.params + f.kwonly, g.params + g.kwonly):
                    if (g, b) in self.param_types:
                        self.param_types[(f, a)] = self.param_types[(g, b)]
            if not changed and before == (self.param_types, self.attr_types, self.attr_elem):
                break
        self.rounds = r + 1
        return self

    # ---- types from annotations
    def ann(self, m, node, cls=None, depth=0):
        if node is None or depth > 6:
            return EMPTY
        if isinstance(node, ast.Constant):
            if node.value is None:
                return NONE
            if isinstance(node.value, str):
                try:
                    return self.ann(m, ast.parse(node.value, mode='eval').body, cls, depth + 1)
                except SyntaxError:
                    return EMPTY
            return EMPTY
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.ann(m, node.left, cls, depth + 1) | self.ann(m, node.right, cls, depth + 1)
        if isinstance(node, (ast.Name, ast.Attribute)):
            d = dotted(node)
            if d in ('int', 'bool', 'float', 'str', 'bytes', 'list', 'set', 'dict', 'tuple'):
                return T(d)
            if d in ('Self', 'typing.Self') and cls:
                return F([('inst', cls)])
            r = self.p.resolve_dotted(m, d)
            if r is None and cls is not None and d in cls.attrs:   # NF = TypeVar(..., bound='NFBase')
                v = cls.attrs[d][1]
                return self._typevar(m, v, cls, depth)
            if r and r[0] == 'class':
                return F([('inst', r[1])])
            if r and r[0] == 'var':
                v = next((x for x in r[1].vars[r[2]] if x is not None), None)
                return self._typevar(r[1], v, cls, depth)
            if r and r[0] in ('ext', 'mod'):
                e = r[1].split('.')[-1]
                if e in ('NDArray', 'ndarray'):
                    return NDARRAY
                if e in ('List', 'Set', 'Dict', 'Tuple'):
                    return T(e.lower())
                if e in ('Sequence', 'Iterable', 'Iterator'):
                    return T({'Sequence': 'seq'}.get(e, 'iter'))
                if e == 'DefaultDict':
                    return T('dict')
                if e == 'DataFrame':
                    return T('frame')
                if r[1] == 'random.Random':
                    return T('rand')
                if e in ('Any', 'DTypeLike', 'Callable'):
                    return ANY
            return EMPTY
        if isinstance(node, ast.Subscript):
            d = dotted(node.value)
            last = d.split('.')[-1] if d else ''
            sl = node.slice
            items = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if last in ('Optional',):
                return self.ann(m, sl, cls, depth + 1) | NONE
            if last == 'Union':
                return F().union(*[self.ann(m, i, cls, depth + 1) for i in items])
            if last in ('list', 'List', 'Sequence', 'Iterable', 'Iterator', 'set', 'Set', 'frozenset', 'Generator'):
                e = self.ann(m, items[0], cls, depth + 1)
                k = {'list': 'list', 'List': 'list', 'Sequence': 'seq', 'set': 'set', 'Set': 'set', 'frozenset': 'frozenset'}.get(last, 'iter')
                return F([(k, e)])
            if last in ('dict', 'Dict', 'DefaultDict', 'Mapping'):
                e = self.ann(m, items[1], cls, depth + 1) if len(items) > 1 else EMPTY
                k = self.ann(m, items[0], cls, depth + 1)
                return F([('dict', e, k)])
            if last in ('tuple', 'Tuple'):
                if len(items) == 2 and isinstance(items[1], ast.Constant) and items[1].value is Ellipsis:
                    return F([('tuple', self.ann(m, items[0], cls, depth + 1))])
                return F([('tup', tuple(self.ann(m, i, cls, depth + 1) for i in items))])
            if last in ('type', 'Type'):
                return F([('class', t[1]) for t in self.ann(m, sl, cls, depth + 1) if t[0] == 'inst'])
            if last == 'Literal':
                return STR
            if last in ('NDArray',):
                return NDARRAY
            return self.ann(m, node.value, cls, depth + 1)
        return EMPTY

    def _typevar(self, m, v, cls, depth):
        if isinstance(v, ast.Call) and dotted(v.func) and dotted(v.func).endswith('TypeVar'):
            for k in v.keywords:
                if k.arg == 'bound':
                    return self.ann(m, k.value, cls, depth + 1)
            return EMPTY
        if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript, ast.BinOp)):
            return self.ann(m, v, cls, depth + 1)
        return EMPTY

    def attr_type(self, c, name):
        """(types, elemtypes) of attribute `name` on class c (fields, inferred stores)."""
        out = set()
        for k in c.mro():
            if name in k.attrs and k.attrs[name][0] is not None:
                out |= self.ann(k.mod, k.attrs[name][0], k)
            if name in k.inst_attrs:
                for f, n in k.inst_attrs[name]:
                    if isinstance(n, ast.AnnAssign):
                        out |= self.ann(f.mod, n.annotation, k)
            out |= self.attr_types.get((k.qual, name), EMPTY)
        return F(out)

    def note_attr(self, c, name, v):
        k = (c.qual, name)
        old = self.attr_types.get(k, EMPTY)
        new = old | F(t for t in v.types if len(str(t)) < 400)
        if new != old:
            self.attr_types[k] = new

    def impls(self, c, name):
        """Possible implementations of method `name` on a value of static class c (CHA)."""
        out = []
        m = c.find_method(name)
        if m is not None:
            out.append(m)
        for s in self.subclasses.get(c, []):
            if name in s.methods and s.methods[name] not in out:
                out.append(s.methods[name])
        conc = [m for m in out if not m.abstract]
        return conc or out


def elem_types(types):
    out = set()
    for t in types:
        if t[0] in ('list', 'seq', 'iter', 'set', 'tuple', 'frozenset') and len(t) > 1 and t[1]:
            out |= t[1]
        elif t[0] == 'tup':
            for x in t[1]:
                out |= x
        elif t[0] == 'ndarray':
            out |= {('ndarray',)}
        elif t[0] == 'str':
            out |= {('str',)}
        elif t[0] == 'range':
            out |= {('int',)}
        elif t[0] == 'bytes':
            out |= {('int',)}
    return F(out)


def dict_val_types(types):
    out = set()
    for t in types:
        if t[0] == 'dict' and len(t) > 1:
            out |= t[1]
    return F(out)


def dict_key_types(types):
    out = set()
    for t in types:
        if t[0] == 'dict' and len(t) > 2:
            out |= t[2]
    return F(out)


NP_ALIAS = {'asarray', 'reshape', 'ravel', 'broadcast_to', 'swapaxes', 'transpose', 'squeeze', 'moveaxis', 'expand_dims', 'atleast_1d', 'atleast_3d',
            'asanyarray', 'ascontiguousarray', 'flip', 'flipud', 'fliplr', 'rollaxis', 'diagonal', 'real', 'split', 'array_split', 'rot90'}
NP_MUT0 = {'copyto', 'put', 'place', 'fill_diagonal', 'putmask', 'random.shuffle', 'put_along_axis'}
ND_ALIAS = {'reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze', 'diagonal'}
ND_MUT = {'sort', 'fill', 'resize', 'put', 'itemset', 'partition', 'setflags', 'setfield'}
LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'appendleft', 'popleft', 'rotate'}
DICT_MUT = {'update', 'pop', 'popitem', 'setdefault', 'clear', 'move_to_end'}
SET_MUT = {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
EXT_MUT0 = {'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0, 'heapq.heappushpop': 0, 'heapq.heapreplace': 0, 'random.shuffle': 0,
            'bisect.insort': 0, 'bisect.insort_left': 0, 'bisect.insort_right': 0, 'operator.setitem': 0, 'operator.delitem': 0, 'operator.iadd': 0,
            'operator.imul': 0, 'operator.isub': 0, 'operator.imod': 0, 'operator.iconcat': 0, 'operator.ior': 0}
OPNAME = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
          ast.MatMult: 'matmul', ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}
INERT_EXT = ('builtins.print',)


class FuncAnalysis:
    def __init__(self, an, f):
        self.an, self.p, self.f = an, an.p, f
        self.heap = {}
        self.s = Summary()
        self.pc = [EMPTY]
        self.muts = {}
        self.rets = []
        self.ylds = []
        self.calls = []
        self.reads = set()
        self.heapchanged = False
        self.loopstack = []

    # ---- driver
    def run(self):
        f = self.f
        env = {}
        for i, a in enumerate(f.params + f.kwonly):
            t = EMPTY
            if f.annot.get(a) is not None:
                t = self.an.ann(f.mod, f.annot[a], f.cls or (f.parent.cls if f.parent else None))
            if i == 0 and f.kind == 'method' and a not in ('',) and f.cls is not None:
                t = F([('inst', f.cls)])
            elif i == 0 and f.kind == 'class' and f.cls is not None:
                t = F([('class', f.cls)])
            if not t:
                t = self.an.param_types.get((f, a), EMPTY)
            if not t and a in f.defaults and isinstance(f.defaults[a], ast.Constant):
                dv = f.defaults[a].value
                t = T(type(dv).__name__) if isinstance(dv, (bool, int, str, float)) else EMPTY
            if not t or t == NONE:
                t = t | guess_types(f, a)
            env[a] = V(t, F([('p', a, ())]))
        if f.vararg:
            env[f.vararg] = V(F([('tuple', self.an.ann(f.mod, (f.node.args.vararg.annotation)))]), F([('p', f.vararg, ())]))
        if f.kwarg:
            env[f.kwarg] = V(T('dict'), F([('p', f.kwarg, ())]))
        self.locals = local_names(f)
        for it in range(6):
            self.heapchanged = False
            self.rets, self.ylds, self.muts, self.calls, self.reads = [], [], {}, [], set()
            self.s = Summary()
            e = dict(env)
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, e)
                self.rets.append(v)
            else:
                self.block(f.node.body, e)
            if not self.heapchanged:
                break
        s = self.s
        if f.is_gen:
            el = join(*self.ylds) if self.ylds else BOT
            s.yields = self.reify(el)
            s.ret = (T('gen'), EMPTY, EMPTY, (('[]', s.yields),), True)
        else:
            for v in self.rets:
                s.ret = tjoin(s.ret, self.reify(v))
        s.muts = self.muts
        s.reads = F(self.reads)
        self.an.calls_in[f] = self.calls
        return s

    # ---- heap
    def alloc(self, node, tag='', types=EMPTY, deps=EMPTY, **contents):
        site = f'{self.f.qual}:{getattr(node, "lineno", 0)}:{getattr(node, "col_offset", 0)}:{tag}'
        h = self.heap.setdefault(site, {})
        for k, v in contents.items():
            self.hput(site, '[]' if k == 'elem' else '.' + k, v)
        return V(types, F([('alloc', site, False)]), deps)

    def hput(self, site, step, v):
        h = self.heap.setdefault(site, {})
        # keep contents from referring to themselves for ever
        old = h.get(step, BOT)
        new = join(old, v)
        if new != old:
            h[step] = new
            self.heapchanged = True

    def use(self, v, seen=None, depth=0):
        """All symbolic dependencies of using v as a whole."""
        d = set(v.deps)
        for o in v.orig:
            if symbolic(o):
                if o[0] != 'cache':
                    d.add(o)
            else:
                seen = seen if seen is not None else set()
                if o[1] in seen or depth > 5:
                    continue
                seen.add(o[1])
                for st, x in self.heap.get(o[1], {}).items():
                    d |= self.use(x, seen, depth + 1)
        return F(d)

    def reify(self, v, depth=0, seen=()):
        if v is None:
            return None
        cont, fresh = {}, False
        for o in v.orig:
            if o[0] == 'alloc':
                fresh = True
                if depth < 4 and o[1] not in seen:
                    for st, x in self.heap.get(o[1], {}).items():
                        cont[st] = tjoin(cont.get(st), self.reify(x, depth + 1, seen + (o[1],)))
        return (v.types, F(o for o in v.orig if symbolic(o)), v.deps, tuple(sorted(cont.items(), key=lambda kv: kv[0])), fresh)

    def inst(self, tree, sub, node, tag='', cap=None):
        """Instantiate a summary tree at a call."""
        if tree is None:
            return BOT
        types, orig, deps, cont, fresh = tree
        out = [V(types, EMPTY, self.subdeps(deps, sub, cap))]
        for o in orig:
            if o[0] == 'p' and o[1] in sub:
                w = self.follow(sub[o[1]], o[2])
                out.append(V(w.types if not types else EMPTY, w.orig, w.deps))
            elif o[0] == 'cap':
                w = self.capval(o, cap)
                out.append(V(EMPTY, w.orig, w.deps))
            else:
                out.append(V(EMPTY, F([o]), EMPTY))
        if fresh or cont:
            a = self.alloc(node, 'r' + tag)
            site = next(iter(a.orig))[1]
            for st, t in cont:
                self.hput(site, st, self.inst(t, sub, node, tag + st, cap))
            out.append(a)
        return join(*out)

    def capval(self, o, cap):
        if cap is not None and o[1] in cap:
            return self.follow(cap[o[1]], o[2])
        return V(EMPTY, F([o]), EMPTY)

    def subdeps(self, deps, sub, cap=None):
        out = set()
        for o in deps:
            if o[0] == 'p' and o[1] in sub:
                out |= self.use(self.follow(sub[o[1]], o[2]))
            elif o[0] == 'cap' and cap is not None and o[1] in cap:
                out |= self.use(self.follow(cap[o[1]], o[2]))
            elif o[0] == 'p':
                pass
            else:
                out.add(o)
        return F(out)

    def follow(self, v, path):
        for st in path:
            if st.startswith('.'):
                v = self.getattr_(v, st[1:], None)
            elif st.startswith('['):
                v = self.elem(v, st)
        return v

    # ---- accessors
    def elem(self, v, step='[]'):
        types = set(elem_types(v.types)) | set(dict_val_types(v.types) if step != '[k]' else dict_key_types(v.types))
        if step not in ('[]', '[k]') and step[1:-1].lstrip('-').isdigit():
            ix = int(step[1:-1])
            tt = set()
            for t in v.types:
                if t[0] == 'tup' and -len(t[1]) <= ix < len(t[1]):
                    tt |= t[1][ix]
                elif t[0] != 'tup':
                    tt |= elem_types([t]) | dict_val_types([t])
            types = tt
        orig, deps = set(), set(v.deps)
        for o in v.orig:
            if symbolic(o):
                orig.add(ext(o, step))
            else:
                h = self.heap.get(o[1], {})
                if ('ndarray',) in v.types:
                    orig.add(o)
                got = False
                want = [step, '[]'] if step not in ('[]', '[k]') else ([step] if step == '[k]' else [k for k in h if k.startswith('[') and k != '[k]'])
                for k in want:
                    if k in h:
                        types |= h[k].types
                        orig |= h[k].orig
                        deps |= h[k].deps
        return V(F(types), F(orig), F(deps))

    def getattr_(self, v, name, node):
        types, orig, deps = set(), set(), set(v.deps)
        for t in v.types:
            if t[0] == 'inst':
                types |= self.an.attr_type(t[1], name)
                for m in (self.an.impls(t[1], name)):
                    if not m.property:
                        types.add(('bound', m))
            elif t[0] == 'class':
                c = t[1]
                m = c.find_method(name)
                if m is not None:
                    for mm in self.an.impls(c, name):
                        types.add(('bound', mm))
                elif name in c.inner:
                    types.add(('class', c.inner[name]))
                else:
                    for k in c.mro():
                        if name in k.attrs:
                            types |= self.an.ann(k.mod, k.attrs[name][0], k)
                            orig.add(('cls', f'{k.qual}.{name}', ()))
                            if isinstance(k.attrs[name][1], ast.Constant):
                                types |= T(type(k.attrs[name][1].value).__name__)
                            elif isinstance(k.attrs[name][1], (ast.Dict, ast.DictComp)):
                                types |= T('dict')
                            elif isinstance(k.attrs[name][1], (ast.List, ast.ListComp)):
                                types |= T('list')
                            break
                if name == '__name__':
                    types |= STR
            elif t[0] == 'ndarray':
                if name in ('T', 'real', 'flat', 'base', 'imag'):
                    types |= NDARRAY
                    orig |= v.orig
                elif name == 'shape':
                    types.add(('tuple', INT))
                elif name in ('ndim', 'size', 'itemsize', 'nbytes'):
                    types |= INT
        for o in v.orig:
            if symbolic(o):
                if name == '__class__':
                    orig.add(ext(o, '.__class__'))
                else:
                    orig.add(ext(o, '.' + name))
            else:
                h = self.heap.get(o[1], {})
                x = h.get('.' + name)
                if x is not None:
                    types |= x.types
                    orig |= x.orig
                    deps |= x.deps
        if name == '__class__':
            types |= F(('class', t[1]) for t in v.types if t[0] == 'inst')
        # an instance attribute set at class level
        for t in v.types:
            if t[0] == 'inst':
                for k in t[1].mro():
                    if name in k.attrs and k.attrs[name][1] is not None and name not in k.inst_attrs and k.dataclass is None:
                        orig.add(('cls', f'{k.qual}.{name}', ()))
                        val = k.attrs[name][1]
                        if isinstance(val, (ast.Dict, ast.DictComp)):
                            types |= T('dict')
                        elif isinstance(val, (ast.List, ast.ListComp)):
                            types |= T('list')
                        break
        # properties
        props = []
        for t in v.types:
            if t[0] == 'inst':
                props += [m for m in self.an.impls(t[1], name) if m.property]
        if props:
            r = [self.call_func(m, [v], {}, node or self.f.node) for m in props]
            return join(*r)
        return V(F(types), F(orig), F(deps))

    # ---- mutation
    def mutate(self, v, step, val, kind, node, effdeps=EMPTY):
        """Record that the object(s) v may be changed in place."""
        for o in v.orig:
            if o[0] == 'alloc':
                if o[2]:
                    self.s.exposed[self.f.loc(node)] = f'{kind} changes an object already handed out by yield'
                if val is not None and step is not None:
                    self.hput(o[1], step, val.withdeps(self.pcd()))
                else:
                    pass
            else:
                where = self.f.loc(node)
                k = (o, step, kind, where)
                t = self.reify(val) if val is not None else None
                self.muts[k] = tjoin(self.muts.get(k), t) if k in self.muts else t
                if o[0] in ('cap', 'p') and ('exp', o[0], o[1]) in self.exposedset:
                    self.s.exposed[where] = f'{kind} changes an object already handed out by yield'
                d = self.pcd() | effdeps
                if val is not None:
                    d |= self.use(val)
                self.s.effdeps |= d
                if step is not None and step.startswith('.') and len(o[2]) == 0:
                    for t in v.types:
                        if t[0] == 'inst':
                            self.an.note_attr(t[1], step[1:], V(val.types if val else EMPTY))
        for t in v.types:
            if t[0] == 'inst' and step and step.startswith('.') and val is not None:
                self.an.note_attr(t[1], step[1:], val)

    exposedset = EMPTY

    def pcd(self):
        return F().union(*self.pc)

    # ---- statements; return True if control can fall through
    def block(self, body, env):
        for s in body:
            if not self.stmt(s, env):
                return False
        return True

    def assign(self, tgt, v, env, node):
        if isinstance(tgt, ast.Name):
            v = v.withdeps(self.pcd())
            if tgt.id in self.globals_():
                self.muts[(('glob', f'{self.f.mod.name}.{tgt.id}', ()), None, 'rebinds a module variable', self.f.loc(node))] = None
                self.s.effdeps |= self.use(v)
            elif tgt.id in self.nonlocals():
                self.mutate_cap_rebind(tgt.id, v, node)
                env[tgt.id] = v
            else:
                env[tgt.id] = v
            self.an.vals[tgt] = v
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            star = [i for i, t in enumerate(tgt.elts) if isinstance(t, ast.Starred)]
            for i, t in enumerate(tgt.elts):
                if isinstance(t, ast.Starred):
                    e = self.elem(v)
                    self.assign(t.value, self.alloc(t, 'star', T('list'), elem=e), env, node)
                else:
                    idx = i if not star or i < star[0] else i - n
                    self.assign(t, self.elem(v, f'[{idx}]'), env, node)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, env)
            self.mutate(o, '.' + tgt.attr, v, f'assignment to .{tgt.attr}', node)
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, env)
            i = self.ev(tgt.slice, env) if not isinstance(tgt.slice, ast.Slice) else self.ev_slice(tgt.slice, env)
            d = self.use(i)
            if any(t[0] == 'dict' for t in o.types):
                for oo in o.orig:
                    if oo[0] == 'alloc':
                        self.hput(oo[1], '[k]', i)
            self.an.stores[self.f, tgt] = (o, d, self.use(v), self.pcd())
            self.mutate(o, '[]', v.withdeps(d), 'item assignment', node, d)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, env, node)

    def globals_(self):
        if not hasattr(self, '_g'):
            self._g = {n for x in walk_local(self.f.node) if isinstance(x, ast.Global) for n in x.names}
            self._n = {n for x in walk_local(self.f.node) if isinstance(x, ast.Nonlocal) for n in x.names}
        return self._g

    def nonlocals(self):
        self.globals_()
        return self._n

    def mutate_cap_rebind(self, name, v, node):
        k = (('cap', name, ()), None, 'rebinds a captured variable', self.f.loc(node))
        self.muts[k] = self.reify(v)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.ev(e, env)
            return True
        r = m(s, env)
        return True if r is None else r

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts) \
                    and not any(isinstance(x, ast.Starred) for x in t.elts + s.value.elts):
                vs = [self.an.vals.get(x, BOT) for x in s.value.elts]
                for tt, vv in zip(t.elts, vs):
                    self.assign(tt, vv, env, s)
            else:
                self.assign(t, v, env, s)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            v = self.ev(s.value, env)
            t = self.an.ann(self.f.mod, s.annotation, self.f.cls)
            if t and not (v.types - ANY):
                v = V(t, v.orig, v.deps)
            elif t:
                v = V(v.types | t, v.orig, v.deps)
            self.assign(s.target, v, env, s)

    def s_AugAssign(self, s, env):
        r = self.ev(s.value, env)
        tgt = s.target
        cur = self.ev(tgt, env)
        kinds = {t[0] for t in cur.types}
        meth = 'i' + OPNAME.get(type(s.op), '')
        ifns = [m for t in cur.types if t[0] == 'inst' for m in self.an.impls(t[1], f'__{meth}__')]
        inplace = kinds & MUTABLE_T
        if inplace and not (isinstance(s.op, ast.MatMult)):
            # in-place update of a mutable object
            el = self.elem(r) if kinds & {'list', 'set', 'deque'} else r
            self.mutate(cur, '[]', el, f'in-place {OPNAME.get(type(s.op))}', s, self.use(r))
            nv = V(cur.types, cur.orig, cur.deps | self.use(r))
            other = kinds - MUTABLE_T
            if other:
                nv = join(nv, self.binop(s.op, cur, r, s))
        elif ifns:
            nv = join(*[self.call_func(m, [cur, r], {}, s) for m in ifns])
        else:
            nv = self.binop(s.op, cur, r, s)
        if isinstance(tgt, ast.Name):
            self.assign(tgt, nv, env, s)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, env)
            self.mutate(o, '.' + tgt.attr, nv, f'assignment to .{tgt.attr}', s)
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, env)
            d = self.use(self.an.vals.get(tgt.slice, BOT))
            self.mutate(o, '[]', nv.withdeps(d), 'item assignment', s, d)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, (ast.Attribute, ast.Subscript)):
                o = self.ev(t.value, env)
                d = EMPTY
                if isinstance(t, ast.Subscript):
                    d = self.use(self.ev(t.slice, env))
                self.mutate(o, None, None, 'del', s, d)

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value is not None else V(NONE)
        self.rets.append(v.withdeps(self.pcd()))
        return False

    def s_Raise(self, s, env):
        if s.exc is not None:
            self.ev(s.exc, env)
        return False

    def s_Assert(self, s, env):
        c = self.ev(s.test, env)
        self.s.guard |= self.use(c)
        if s.msg is not None:
            self.ev(s.msg, env)

    def s_Pass(self, s, env):
        return True

    def s_Break(self, s, env):
        if self.loopstack:
            self.loopstack[-1].append(dict(env))
        return False

    def s_Continue(self, s, env):
        if self.loopstack:
            self.loopstack[-1].append(('c', dict(env)))
        return False

    def merge(self, env, outs):
        """Replace env's contents with the join of outs."""
        outs = [o for o in outs if o is not None]
        if not outs:
            return False
        keys = set().union(*outs)
        new = {k: join(*[o[k] for o in outs if k in o]) for k in keys}
        env.clear()
        env.update(new)
        return True

    def s_If(self, s, env):
        c = self.ev(s.test, env)
        d = self.use(c)
        e1, e2 = dict(env), dict(env)
        self.narrow(s.test, e1, True)
        self.narrow(s.test, e2, False)
        if only_raises(s.body) and not s.orelse:
            self.s.guard |= d
            self.block(s.body, e1)
            env.clear()
            env.update(e2)
            return True
        self.pc.append(d)
        f1 = self.block(s.body, e1)
        f2 = self.block(s.orelse, e2)
        self.pc.pop()
        if not f1 or not f2:
            # the fall-through part runs only under this condition; returns there are control dependent
            if (not f1 and has_exit(s.body)) or (not f2 and has_exit(s.orelse)):
                self.exit_dep(d)
        return self.merge(env, [e1 if f1 else None, e2 if f2 else None])

    def exit_dep(self, d):
        # later results depend on whether we left early
        self.pc[-1] = self.pc[-1] | d

    def narrow(self, test, env, pol):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, env, not pol)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and pol:
            for x in test.values:
                self.narrow(x, env, True)
            return
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) and not pol:
            for x in test.values:
                self.narrow(x, env, False)
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            name = test.args[0].id
            if name not in env:
                return
            want = set()
            nodes = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            for n in nodes:
                if isinstance(n, ast.Attribute) and n.attr == '__class__':
                    want |= {('inst', t[1]) for t in self.ev(n.value, env).types if t[0] == 'inst'}
                    continue
                want |= self.an.ann(self.f.mod, n, self.f.cls)
            v = env[name]
            if pol and want:
                env[name] = V(F(want), v.orig, v.deps)
            elif not pol and want:
                keep = F(t for t in v.types if t not in want)
                env[name] = V(keep, v.orig, v.deps)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            name = test.left.id
            if name in env and env[name].types - NONE:
                isn = isinstance(test.ops[0], ast.Is)
                if isn == (not pol):
                    v = env[name]
                    env[name] = V(v.types - NONE, v.orig, v.deps)

    def s_Match(self, s, env):
        c = self.ev(s.subject, env)
        d = self.use(c)
        outs, exhaustive = [], False
        self.pc.append(d)
        for case in s.cases:
            e = dict(env)
            for n in ast.walk(case.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    e[n.name] = self.elem(c) if n is not case.pattern else c
            if case.guard is not None:
                self.ev(case.guard, e)
            if isinstance(case.pattern, ast.MatchAs) and case.pattern.pattern is None and case.guard is None:
                exhaustive = True
            outs.append(e if self.block(case.body, e) else None)
        self.pc.pop()
        if not exhaustive:
            outs.append(dict(env))
        return self.merge(env, outs)

    def loop(self, s, env, header):
        """header(env) evaluates the loop head in env and returns the control dependency."""
        breaks_all = []
        final = None
        for it in range(5):
            before = dict(env)
            e = dict(env)
            d = header(e)
            self.pc.append(d)
            self.loopstack.append([])
            ft = self.block(s.body, e)
            brk = self.loopstack.pop()
            self.pc.pop()
            outs = [dict(env)]
            if ft:
                outs.append(e)
            outs += [x[1] for x in brk if isinstance(x, tuple)]
            breaks_all = [x for x in brk if not isinstance(x, tuple)]
            self.merge(env, outs)
            if env == before:
                break
        infinite = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
        outs = []
        if not infinite:
            e = dict(env)
            ft = True
            if s.orelse:
                ft = self.block(s.orelse, e)
            if ft:
                outs.append(e)
        if any(has_exit([b]) for b in s.body):
            self.exit_dep(d)
        outs += breaks_all
        return self.merge(env, outs)

    def s_For(self, s, env):
        itv = self.ev(s.iter, env)

        rounds = []

        def header(e):
            if rounds and self.gen_calls.get(s.iter):
                self.ev(s.iter, e)          # the generator goes on with what has been handed out meanwhile
            rounds.append(1)
            self.iterate_effects(s.iter, itv, e)
            self.assign(s.target, self.iter_elem(itv), e, s)
            return self.use(itv)
        return self.loop(s, env, header)

    s_AsyncFor = s_For

    def s_While(self, s, env):
        def header(e):
            return self.use(self.ev(s.test, e))
        return self.loop(s, env, header)

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            r = v
            for t in v.types:
                if t[0] == 'inst':
                    ms = self.an.impls(t[1], '__enter__')
                    if ms:
                        r = join(*[self.call_func(m, [v], {}, s) for m in ms])
            if i.optional_vars is not None:
                self.assign(i.optional_vars, r, env, s)
        return self.block(s.body, env)

    def s_Try(self, s, env):
        start = dict(env)
        e = dict(env)
        ft = self.block(s.body, e)
        if ft and s.orelse:
            ft = self.block(s.orelse, e)
        outs = [e if ft else None]
        mid = dict(start)
        self.merge(mid, [start, e])
        for h in s.handlers:
            eh = dict(mid)
            if h.name:
                eh[h.name] = V(ANY)
            outs.append(eh if self.block(h.body, eh) else None)
        ok = self.merge(env, outs)
        if s.finalbody:
            ee = env if ok else dict(mid)
            f2 = self.block(s.finalbody, ee)
            return ok and f2
        return ok

    def s_FunctionDef(self, s, env):
        f = self.p.by_node.get(s)
        env[s.name] = V(F([('func', f)]), EMPTY, self.free_deps(f, env)) if f else V(ANY)

    def s_ClassDef(self, s, env):
        env[s.name] = V(ANY)

    def s_Import(self, s, env):
        for a in s.names:
            env[a.asname or a.name.split('.')[0]] = V(F([('mod', a.name)]))

    def s_ImportFrom(self, s, env):
        for a in s.names:
            env[a.asname or a.name] = self.modname(a.asname or a.name)

    def s_Global(self, s, env):
        return True

    s_Nonlocal = s_Global

    def free_deps(self, f, env):
        d = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in env and n.id not in f.allparams():
                d |= self.use(env[n.id])
        return F(d)

    # ---- iteration
    def iter_elem(self, v):
        out = []
        for t in v.types:
            if t[0] == 'dict':
                out.append(self.elem(V(F([t]), v.orig, v.deps), '[k]'))
        if not out or any(t[0] != 'dict' for t in v.types):
            out.append(self.elem(v))
        r = join(*out)
        return r.withdeps(F(x for x in self.use(V(EMPTY, EMPTY, v.deps))))

    def iterate_effects(self, node, v, env):
        """Running a generator runs its body: apply its effects at every step of the loop."""
        if isinstance(node, ast.Call):
            for (f, sub, cap) in self.gen_calls.get(node, []):
                self.apply_effects(f, sub, node, cap)

    @property
    def gen_calls(self):
        if not hasattr(self, '_gc'):
            self._gc = {}
        return self._gc

    # ---- expressions
    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            d = set()
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    d |= self.use(self.ev(c, env))
            v = V(ANY, EMPTY, F(d))
        else:
            v = m(n, env)
        self.an.vals[n] = v
        for o in v.orig:
            if symbolic(o):
                self.reads.add(o)
        return v

    def e_Constant(self, n, env):
        v = n.value
        if v is None:
            return V(NONE)
        if v is Ellipsis:
            return V(T('ellipsis'))
        return V(T(type(v).__name__))

    def e_JoinedStr(self, n, env):
        d = set()
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                d |= self.use(self.ev(x.value, env))
        return V(STR, EMPTY, F(d))

    def modname(self, name):
        r = self.p.lookup(self.f.mod, name)
        if r is None:
            if hasattr(builtins, name):
                return V(F([('ext', 'builtins.' + name)]))
            return V(ANY)
        if r[0] == 'func':
            return V(F([('func', r[1])]))
        if r[0] == 'class':
            return V(F([('class', r[1])]))
        if r[0] == 'mod':
            return V(F([('mod', r[1])]))
        if r[0] == 'ext':
            return V(F([('ext', r[1])]))
        if r[0] == 'var':
            t = set()
            for val in r[1].vars[r[2]]:
                if isinstance(val, (ast.List, ast.ListComp)):
                    t |= T('list')
                elif isinstance(val, (ast.Dict, ast.DictComp)):
                    t |= T('dict')
                elif isinstance(val, (ast.Set, ast.SetComp)):
                    t |= T('set')
                elif isinstance(val, ast.Constant):
                    t |= T(type(val.value).__name__)
                elif isinstance(val, ast.Call):
                    c = self.p.resolve_class(r[1], val.func)
                    e = self.p.ext_name(r[1], val.func)
                    if c:
                        t |= F([('inst', c)])
                    elif e in ('builtins.dict', 'collections.defaultdict', 'collections.OrderedDict'):
                        t |= T('dict')
                    elif e in ('builtins.list', 'builtins.set'):
                        t |= T(e.split('.')[1])
                    elif e == 'random.Random':
                        t |= T('rand')
            return V(F(t), F([('glob', f'{r[1].name}.{r[2]}', ())]))
        return V(ANY)

    def e_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        if n.id in self.locals:
            return BOT
        g = self.f.parent
        while g is not None:
            if n.id in local_names(g) or n.id in g.allparams():
                # captured variable
                types = EMPTY
                if n.id in g.annot and g.annot[n.id] is not None:
                    types = self.an.ann(g.mod, g.annot[n.id], g.cls)
                if g.receiver() == n.id and g.cls:
                    types = F([('inst', g.cls)]) if g.kind == 'method' else F([('class', g.cls)])
                types |= self.an.param_types.get((g, n.id), EMPTY) | self.captypes(g, n.id)
                if n.id in g.nested:
                    return V(F([('func', g.nested[n.id])]), F([('cap', n.id, ())]))
                return V(types, F([('cap', n.id, ())]))
            g = g.parent
        return self.modname(n.id)

    def captypes(self, g, name):
        t = set()
        for x in walk_local(g.node):
            if isinstance(x, ast.Name) and x.id == name and x in self.an.vals:
                t |= {y for y in self.an.vals[x].types if y[0] not in ('any',)}
        return F(t)

    def e_Attribute(self, n, env):
        v = self.ev(n.value, env)
        mods = [t for t in v.types if t[0] == 'mod']
        if mods:
            r = self.p.resolve_dotted(self.f.mod, dotted(n)) if dotted(n) else None
            full = f'{mods[0][1]}.{n.attr}'
            if full in self.p.modules:
                return V(F([('mod', full)]))
            if mods[0][1] in self.p.modules:
                m = self.p.modules[mods[0][1]]
                r = self.p.lookup(m, n.attr)
                if r and r[0] == 'func':
                    return V(F([('func', r[1])]))
                if r and r[0] == 'class':
                    return V(F([('class', r[1])]))
                if r and r[0] == 'var':
                    return V(EMPTY, F([('glob', f'{r[1].name}.{r[2]}', ())]))
                return V(ANY)
            return V(F([('ext', full)]))
        exts = [t for t in v.types if t[0] == 'ext']
        if exts:
            return V(F(('ext', f'{t[1]}.{n.attr}') for t in exts))
        r = self.getattr_(v, n.attr, n)
        if any(t[0] == 'self__slots' for t in r.types):
            return r
        # loads of bound methods keep the receiver as origin so that they can be called later
        if any(t[0] == 'bound' for t in r.types):
            return V(r.types, F(v.orig) | F(o for o in r.orig if o[0] == 'cls'), r.deps)
        return r

    def ev_slice(self, s, env):
        d = set()
        for x in (s.lower, s.upper, s.step):
            if x is not None:
                d |= self.use(self.ev(x, env))
        return V(T('slice'), EMPTY, F(d))

    def e_Slice(self, n, env):
        return self.ev_slice(n, env)

    def e_Subscript(self, n, env):
        v = self.ev(n.value, env)
        idx = self.ev(n.slice, env)
        d = self.use(idx)
        kinds = {t[0] for t in v.types}
        if any(t[0] in ('class', 'ext') for t in v.types):
            return v
        if isinstance(n.slice, ast.Slice) or ({t[0] for t in idx.types} == {'slice'}):
            if 'ndarray' in kinds:
                return V(v.types, F((ext(o, '[]') if symbolic(o) else o) for o in v.orig), v.deps | d)
            if kinds <= {'str', 'bytes', 'range'} and kinds:
                return V(v.types, EMPTY, self.use(v) | d)
            e = self.elem(v)
            # keep the constant-position paths: x[:k] reads elements
            nv = self.alloc(n, 'slice', F(t for t in v.types if t[0] != 'ndarray') or ANY, d | v.deps, elem=e)
            return V(nv.types, nv.orig, nv.deps)
        if 'ndarray' in kinds:
            fancy = isinstance(n.slice, (ast.Name, ast.ListComp, ast.List)) and any(t[0] in ('ndarray', 'list') for t in idx.types)
            if fancy:
                return self.alloc(n, 'fancy', NDARRAY, self.use(v) | d)
            return V(NDARRAY, F((ext(o, '[]') if symbolic(o) else o) for o in v.orig), v.deps | d)
        if 'frame' in kinds:
            return V(T('frame'), EMPTY, self.use(v) | d)
        step = '[]'
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            step = f'[{n.slice.value}]'
        elif isinstance(n.slice, ast.UnaryOp) and isinstance(n.slice.op, ast.USub) and isinstance(n.slice.operand, ast.Constant):
            step = f'[{-n.slice.operand.value}]'
        gi = [m for t in v.types if t[0] == 'inst' for m in self.an.impls(t[1], '__getitem__')]
        if gi:
            return join(*[self.call_func(m, [v, idx], {}, n) for m in gi])
        return self.elem(v, step).withdeps(d)

    def e_Tuple(self, n, env):
        vs = [self.ev(x, env) for x in n.elts]
        a = self.alloc(n, 'tup')
        site = next(iter(a.orig))[1]
        star = False
        for i, (x, v) in enumerate(zip(n.elts, vs)):
            if isinstance(x, ast.Starred):
                star = True
                self.hput(site, '[]', self.iter_elem(self.an.vals[x.value]))
            elif star:
                self.hput(site, '[]', v)
            else:
                self.hput(site, f'[{i}]', v)
        return V(F([('tup', tuple(v.types for v in vs))]) if not star and len(str([v.types for v in vs])) < 300 else T('tuple'), a.orig)

    def e_Starred(self, n, env):
        return self.ev(n.value, env)

    def e_List(self, n, env):
        es = []
        for x in n.elts:
            v = self.ev(x, env)
            es.append(self.iter_elem(v) if isinstance(x, ast.Starred) else v)
        return self.alloc(n, 'list', T('list'), elem=join(*es) if es else BOT)

    def e_Set(self, n, env):
        v = self.e_List(n, env)
        return V(T('set'), v.orig, v.deps)

    def e_Dict(self, n, env):
        ks, vs = [], []
        for k, x in zip(n.keys, n.values):
            v = self.ev(x, env)
            if k is None:
                ks.append(self.elem(v, '[k]'))
                vs.append(self.elem(v))
            else:
                ks.append(self.ev(k, env))
                vs.append(v)
        a = self.alloc(n, 'dict', T('dict'), elem=join(*vs) if vs else BOT)
        if ks:
            self.hput(next(iter(a.orig))[1], '[k]', join(*ks))
        return a

    def comp(self, n, env, make):
        e = dict(env)
        d = EMPTY
        npush = 0
        for g in n.generators:
            itv = self.ev(g.iter, e)
            self.iterate_effects(g.iter, itv, e)
            self.assign(g.target, self.iter_elem(itv), e, n)
            d |= V.__call__ if False else EMPTY
            dd = set(itv.deps)
            for o in itv.orig:
                if symbolic(o) and o[0] != 'cache':
                    dd.add(o)
            self.pc.append(F(dd))
            npush += 1
            for c in g.ifs:
                cv = self.ev(c, e)
                self.narrow(c, e, True)
                self.pc.append(self.use(cv))
                npush += 1
        r = make(e)
        d = F().union(*self.pc[len(self.pc) - npush:]) if npush else EMPTY
        for _ in range(npush):
            self.pc.pop()
        for k, v in e.items():
            # walrus targets escape
            pass
        return r, d

    def e_ListComp(self, n, env):
        v, d = self.comp(n, env, lambda e: self.ev(n.elt, e))
        return self.alloc(n, 'list', T('list'), d, elem=v.withdeps(d))

    def e_SetComp(self, n, env):
        v, d = self.comp(n, env, lambda e: self.ev(n.elt, e))
        return self.alloc(n, 'set', T('set'), d, elem=v.withdeps(d))

    def e_GeneratorExp(self, n, env):
        v, d = self.comp(n, env, lambda e: self.ev(n.elt, e))
        return self.alloc(n, 'gen', T('gen'), d, elem=v.withdeps(d))

    def e_DictComp(self, n, env):
        (k, v), d = self.comp(n, env, lambda e: (self.ev(n.key, e), self.ev(n.value, e)))
        a = self.alloc(n, 'dict', T('dict'), d, elem=v.withdeps(d))
        self.hput(next(iter(a.orig))[1], '[k]', k.withdeps(d))
        return a

    def e_Lambda(self, n, env):
        f = self.p.by_node.get(n)
        return V(F([('func', f)]), EMPTY, self.free_deps(f, env)) if f else V(ANY)

    def e_IfExp(self, n, env):
        c = self.ev(n.test, env)
        e1, e2 = dict(env), dict(env)
        self.narrow(n.test, e1, True)
        self.narrow(n.test, e2, False)
        a, b = self.ev(n.body, e1), self.ev(n.orelse, e2)
        return join(a, b).withdeps(self.use(c))

    def e_BoolOp(self, n, env):
        e = dict(env)
        vs = []
        for x in n.values:
            vs.append(self.ev(x, e))
            self.narrow(x, e, isinstance(n.op, ast.And))
        r = join(*vs)
        d = F().union(*[self.use(v) for v in vs])
        return r.withdeps(d)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return V(BOOL, EMPTY, self.use(v))
        name = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(n.op)]
        ms = [m for t in v.types if t[0] == 'inst' for m in self.an.impls(t[1], name)]
        if ms:
            return join(*[self.call_func(m, [v], {}, n) for m in ms])
        return self.scalar_or_array(v, n, self.use(v))

    def scalar_or_array(self, v, n, d):
        if ('ndarray',) in v.types:
            return self.alloc(n, 'nd', NDARRAY, d)
        return V(F(t for t in v.types if t[0] in SCALAR) or ANY, EMPTY, d)

    def e_Compare(self, n, env):
        d = set(self.use(self.ev(n.left, env)))
        nd = ('ndarray',) in self.an.vals[n.left].types
        for c in n.comparators:
            v = self.ev(c, env)
            nd = nd or ('ndarray',) in v.types
            d |= self.use(v)
        if nd and len(n.ops) == 1 and not isinstance(n.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            return self.alloc(n, 'nd', NDARRAY, F(d))
        return V(BOOL, EMPTY, F(d))

    def e_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n):
        name = OPNAME.get(type(op), '?')
        d = self.use(a) | self.use(b)
        out, declines = [], False
        for x, y, meth in ((a, b, f'__{name}__'), (b, a, f'__r{name}__')):
            for t in x.types:
                if t[0] == 'inst':
                    for m in self.binimpl(t[1], meth):
                        r = self.call_func(m, [x, y], {}, n)
                        ni = {('notimpl',), ('ext', 'builtins.NotImplemented')}
                        declines = declines or bool(r.types & ni)
                        r = V(r.types - ni, r.orig, r.deps)
                        if r.types or r.orig:
                            out.append(r)
            if out and not declines:
                break
        if out:
            return join(*out)
        ka, kb = {t[0] for t in a.types}, {t[0] for t in b.types}
        if 'ndarray' in ka | kb:
            return self.alloc(n, 'nd', NDARRAY, d)
        seqs = {'list', 'tuple', 'tup', 'seq', 'set'}
        if (ka | kb) & seqs:
            els = []
            for v, k in ((a, ka), (b, kb)):
                if k & seqs or not k:
                    els.append(self.elem(v))
            ty = set()
            for v in (a, b):
                for t in v.types:
                    if t[0] in ('list', 'seq'):
                        ty.add(('list',))
                    elif t[0] in ('tuple', 'tup'):
                        ty.add(('tuple',))
                    elif t[0] == 'set':
                        ty.add(('set',))
            return self.alloc(n, 'cat', F(ty), d, elem=join(*els).withdeps(EMPTY) if els else BOT)
        if 'str' in ka | kb:
            return V(STR, EMPTY, d)
        if ka and kb and ka | kb <= {'int', 'bool', 'float'}:
            if isinstance(op, ast.Div) or 'float' in ka | kb:
                return V(FLOAT, EMPTY, d)
            return V(INT, EMPTY, d)
        # unknown operands: a fresh value (in-place effects of unknown operators are not assumed)
        return V(ANY, EMPTY, d)

    def binimpl(self, c, meth):
        ms = self.an.impls(c, meth)
        if ms:
            return ms
        for k in c.mro():      # __radd__ = __add__
            if meth in k.attrs and isinstance(k.attrs[meth][1], ast.Name):
                return self.an.impls(c, k.attrs[meth][1].id)
        return []

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env, n)
        return v

    def e_Await(self, n, env):
        return self.ev(n.value, env)

    def expose(self, v, env):
        """After a yield every local holding the yielded object holds an exposed object."""
        sites = {o[1] for o in v.orig if o[0] == 'alloc'}
        if sites and not all(t[0] in ('tup', 'tuple', 'int', 'str', 'inst', 'gen') for t in v.types):
            for k, x in list(env.items()):
                if any(o[0] == 'alloc' and o[1] in sites for o in x.orig):
                    env[k] = V(x.types, F(('alloc', o[1], True) if o[0] == 'alloc' and o[1] in sites else o for o in x.orig), x.deps)
        for o in v.orig:
            if o[0] in ('cap', 'p') and o[2] == () and any(t[0] in MUTABLE_T for t in v.types):
                self.exposedset = F(self.exposedset) | {('exp', o[0], o[1])}
                self.s.exposes |= {o}

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else V(NONE)
        self.ylds.append(v.withdeps(self.pcd()))
        self.expose(v, env)
        return V(ANY)

    def e_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        e = self.iter_elem(v)
        self.ylds.append(e.withdeps(self.pcd() | self.use(V(EMPTY, EMPTY, v.deps))))
        self.iterate_effects(n.value, v, env)
        if isinstance(n.value, ast.Call):
            for (f, sub, cap) in self.gen_calls.get(n.value, []):
                for o in self.an.sum[f].exposes:
                    w = self.capval(o, cap) if o[0] == 'cap' else (self.follow(sub[o[1]], o[2]) if o[1] in sub else BOT)
                    if o[0] == 'cap' and (cap is None or o[1] not in cap):
                        self.exposedset = F(self.exposedset) | {('exp', 'cap', o[1])}
                        self.s.exposes |= {o}
                    self.expose(V(T('list'), w.orig), env)
        return V(ANY)

    # ---- calls
    def e_Call(self, n, env):
        fv = self.ev(n.func, env)
        args, kw, star = [], {}, False
        for a in n.args:
            v = self.ev(a, env)
            if isinstance(a, ast.Starred):
                star = True
                tl = [t for t in self.an.vals[a.value].types if t[0] == 'tup']
                if tl:
                    for i in range(len(tl[0][1])):
                        args.append(self.elem(v, f'[{i}]'))
                    star = False if a is n.args[-1] else star
                else:
                    args.append(self.iter_elem(v))
            else:
                args.append(v)
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw['**'] = self.elem(v)
            else:
                kw[k.arg] = v
        outs = []
        targets, extname = [], None
        recv = None
        if isinstance(n.func, ast.Attribute):
            recv = self.an.vals.get(n.func.value)
        known = False
        alld = F().union(self.use(fv), *[self.use(a) for a in args], *[self.use(a) for a in kw.values()])
        for t in fv.types:
            if t[0] == 'func':
                targets.append(t[1])
                cap = dict(env) if t[1].parent is self.f else None
                outs.append(self.call_func(t[1], args, kw, n, cap, star))
                known = True
            elif t[0] == 'bound':
                m = t[1]
                targets.append(m)
                known = True
                if recv is not None and any(x[0] in ('inst', 'class') for x in recv.types):
                    rv = V(F(x for x in recv.types if x[0] in ('inst', 'class')), recv.orig, recv.deps)
                else:
                    rv = V(EMPTY, fv.orig, fv.deps)
                isclass = any(x[0] == 'class' for x in rv.types) and not any(x[0] == 'inst' for x in rv.types)
                if m.kind == 'static':
                    outs.append(self.call_func(m, args, kw, n, None, star))
                elif m.kind == 'class':
                    if not isclass:
                        rv = V(F(('class', x[1]) for x in rv.types if x[0] in ('inst', 'class')), rv.orig, rv.deps)
                    outs.append(self.call_func(m, [rv] + args, kw, n, None, star))
                elif isclass:
                    outs.append(self.call_func(m, args, kw, n, None, star))
                else:
                    outs.append(self.call_func(m, [rv] + args, kw, n, None, star))
            elif t[0] == 'class':
                known = True
                outs.append(self.construct(t[1], args, kw, n, fv, star, targets))
            elif t[0] == 'ext':
                known = True
                extname = t[1]
                outs.append(self.call_ext(t[1], n, args, kw, env, alld))
        if isinstance(n.func, ast.Attribute) and not known:
            r = self.call_method(recv, n.func.attr, n, args, kw, env, alld)
            if r is not None:
                outs.append(r)
                known = True
        if isinstance(n.func, ast.Call) and not known:
            pass
        self.calls.append((n, targets, extname))
        self.an.callees[n] = targets
        if not known:
            # unknown callable (a parameter, a callback): assumed pure on its arguments, result fresh
            self.s.effdeps |= alld
            return V(ANY, EMPTY, alld)
        r = join(*outs)
        bound = {t[1] for t in fv.types if t[0] == 'bound'}
        if len(bound) > 1 and recv is not None:
            dd = set()
            for o in recv.orig:
                if symbolic(o):
                    dd.add(ext(o, '.__class__') if any(t[0] == 'inst' for t in recv.types) and '.__class__' not in o[2] else o)
            r = r.withdeps(F(dd))
        return r

    def bind(self, f, args, kw, n, star):
        sub = {}
        ps = list(f.params)
        for i, a in enumerate(args):
            if i < len(ps):
                sub[ps[i]] = join(sub[ps[i]], a) if ps[i] in sub else a
            elif f.vararg:
                cur = sub.get(f.vararg)
                x = self.alloc(n, 'va' + f.vararg, T('tuple'), elem=a)
                sub[f.vararg] = join(cur, x) if cur else x
        if star and args:
            for i in range(len(args), len(ps)):
                if ps[i] not in kw:
                    sub[ps[i]] = args[-1]
            if f.vararg:
                x = self.alloc(n, 'va' + f.vararg, T('tuple'), elem=args[-1])
                sub[f.vararg] = x
        for k, v in kw.items():
            if k in ps or k in f.kwonly:
                sub[k] = v
            elif k == '**':
                for q in ps + f.kwonly:
                    if q not in sub:
                        sub[q] = v
        for a in f.allparams():
            if a not in sub:
                d = f.defaults.get(a)
                if d is not None and isinstance(d, ast.Constant):
                    sub[a] = V(NONE if d.value is None else T(type(d.value).__name__))
                elif d is not None:
                    sub[a] = V(EMPTY, F([('glob', f'default argument {a} of {f.short}', ())]))
                else:
                    sub[a] = BOT
        return sub

    def call_func(self, f, args, kw, n, cap=None, star=False):
        sub = self.bind(f, args, kw, n, star)
        for a, v in sub.items():
            if f.annot.get(a) is None and v.types:
                k = (f, a)
                old = self.an.param_types.get(k, EMPTY)
                new = old | F(t for t in v.types if t[0] not in ('any', 'none', 'bound') and len(str(t)) < 300)
                if len(new) <= 12 and new != old:
                    self.an.param_types[k] = new
        s = self.an.sum[f]
        if f.is_gen:
            self.gen_calls.setdefault(n, [])
            if (f, sub, cap) not in self.gen_calls[n]:
                self.gen_calls[n] = [x for x in self.gen_calls[n] if x[0] is not f] + [(f, sub, cap)]
        self.apply_effects(f, sub, n, cap)
        if s.ret is None:
            ann = self.an.ann(f.mod, f.returns, f.cls) if f.returns is not None else EMPTY
            return V(ann)
        r = self.inst(s.ret, sub, n, f.name, cap)
        if f.returns is not None:
            ann = self.an.ann(f.mod, f.returns, f.cls)
            if ann and not (r.types - ANY - T('notimpl')):
                r = V(ann, r.orig, r.deps)
            elif ann and any(t[0] in ('iter',) for t in ann) and any(t[0] == 'gen' for t in r.types):
                r = V(r.types | ann, r.orig, r.deps)
        # a class method called on self.__class__ / cls returns that class
        recv = f.receiver()
        if recv in sub:
            cl = {t[1] for t in sub[recv].types if t[0] in ('inst', 'class')}
            if len(cl) == 1:
                c = next(iter(cl))
                r = V(F((('inst', c) if t[0] == 'inst' and t[1] in c.mro() and f.cls in c.mro() and t[1] is f.cls else t) for t in r.types), r.orig, r.deps)
        if f.cached or f.inst_cached:
            return V(r.types, F([('cache', f.short, ())]), self.use(r))
        return r

    def apply_effects(self, f, sub, n, cap=None):
        s = self.an.sum[f]
        for (o, step, kind, where), tree in s.muts.items():
            if o[0] == 'p':
                if o[1] not in sub:
                    continue
                tgt = self.follow(sub[o[1]], o[2])
            elif o[0] == 'cap':
                if cap is not None and o[1] in cap:
                    tgt = self.follow(cap[o[1]], o[2])
                else:
                    tgt = V(EMPTY, F([o]))
            else:
                tgt = V(EMPTY, F([o]))
            val = self.inst(tree, sub, n, 's' + f.name + str(step), cap) if tree is not None else None
            k2 = kind if ' via ' in kind else f'{kind} at {where} via {f.short}'
            self.mutate(tgt, step, val, k2, n)
        ed = self.subdeps(s.effdeps, sub, cap)
        if s.effdeps or s.muts or s.io:
            outside = any(o[0] != 'cap' for (o, _, _, _) in s.muts) or s.io or s.effdeps
            local_only = s.muts and all(self.is_local_target(k[0], sub, cap) for k in s.muts) and not s.io
            if not local_only:
                self.s.effdeps |= ed | self.pcd()
        self.s.io = self.s.io or s.io
        self.s.guard |= self.subdeps(s.guard, sub, cap)
        for o in s.reads:
            if o[0] == 'p' and o[1] in sub:
                w = self.follow(sub[o[1]], o[2])
                for x in w.orig:
                    if symbolic(x):
                        self.reads.add(x)
            elif o[0] == 'cap' and cap is not None and o[1] in cap:
                for x in self.follow(cap[o[1]], o[2]).orig:
                    if symbolic(x):
                        self.reads.add(x)
            elif o[0] in ('glob', 'cls', 'cap'):
                self.reads.add(o)

    def is_local_target(self, o, sub, cap):
        if o[0] == 'p' and o[1] in sub:
            w = self.follow(sub[o[1]], o[2])
        elif o[0] == 'cap' and cap is not None and o[1] in cap:
            w = self.follow(cap[o[1]], o[2])
        else:
            return False
        return bool(w.orig) and all(x[0] == 'alloc' for x in w.orig)

    def construct(self, c, args, kw, n, fv, star, targets):
        subs = [x for x in self.an.subclasses.get(c, [c]) if x.find_method('__init__') is None or not x.find_method('__init__').abstract]
        is_self_class = bool(fv.orig)
        obj = self.alloc(n, 'new', F([('inst', c)]))
        site = next(iter(obj.orig))[1]
        init = None
        for k in c.mro():
            if '__init__' in k.methods and not k.methods['__init__'].abstract:
                init = k.methods['__init__']
                break
            if k.dataclass is not None and k.dataclass.get('init', True) is not False:
                break
        dep = F(d for d in self.use(V(EMPTY, fv.orig, fv.deps)))
        if init is not None:
            targets.append(init)
            self.call_func(init, [obj] + args, kw, n, None, star)
        else:
            names = [f[0] for f in c.fields()]
            if not names and is_self_class:
                # abstract base: fields by annotation order
                names = [s.target.id for k in reversed(c.mro()) for s in k.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            for i, a in enumerate(args):
                if i < len(names):
                    self.hput(site, '.' + names[i], a)
                    if star and i == len(args) - 1:
                        for nm in names[i:]:
                            self.hput(site, '.' + nm, a)
            for k, v in kw.items():
                if k in names:
                    self.hput(site, '.' + k, v)
                elif k == '**':
                    for nm in names:
                        self.hput(site, '.' + nm, v)
            for nm in names:
                h = self.heap[site].get('.' + nm)
                if h is not None:
                    self.an.note_attr(c, nm, h)
            for pi in self.an.impls(c, '__post_init__'):
                targets.append(pi)
                self.call_func(pi, [obj], {}, n)
        types = F([('inst', c)])
        return V(types, obj.orig, dep)

    def method_elem_store(self, recv, name, args, n):
        pass

    def call_method(self, recv, name, n, args, kw, env, alld):
        """Method call on a builtin-typed or unknown receiver."""
        if recv is None:
            return None
        kinds = {t[0] for t in recv.types}
        d = F().union(*[self.use(a) for a in args], *[self.use(a) for a in kw.values()]) if args or kw else EMPTY
        if 'rand' in kinds:
            self.mutate_rand(recv, name, n)
            el = self.iter_elem(args[0]) if args and name in ('choice',) else BOT
            if name == 'shuffle' and args:
                self.mutate(args[0], None, None, 'shuffle', n)
            if name in ('sample', 'choices') and args:
                return self.alloc(n, 'smp', T('list'), alld, elem=self.iter_elem(args[0]))
            return V(el.types if el.types else (FLOAT if name == 'random' else INT), el.orig, el.deps | alld)
        if 'ndarray' in kinds:
            if name in ND_MUT:
                self.mutate(recv, '[]', args[0] if args else None, f'.{name}()', n, d)
                return V(NONE)
            for k, v in kw.items():
                if k == 'out':
                    self.mutate(v, '[]', V(ANY, EMPTY, alld), f'out= of .{name}()', n, alld)
            if name in ND_ALIAS:
                return V(NDARRAY, F((ext(o, '[]') if symbolic(o) else o) for o in recv.orig), recv.deps | d)
            if name == 'astype' and 'copy' in kw:
                return V(NDARRAY, recv.orig, recv.deps | d)
            if name in ('tolist',):
                return self.alloc(n, 'l', T('list'), self.use(recv) | d)
            if name in ('tobytes',):
                return V(T('bytes'), EMPTY, alld | self.use(recv))
            return self.alloc(n, 'nd', NDARRAY, self.use(recv) | d)
        if 'frame' in kinds:
            ip = [k for k in n.keywords if k.arg == 'inplace' and isinstance(k.value, ast.Constant) and k.value.value]
            if ip or name in ('insert', 'pop', 'update'):
                self.mutate(recv, None, None, f'.{name}() in place', n, d)
            return V(T('frame'), EMPTY, self.use(recv) | d)
        listy = kinds & {'list', 'deque'}
        if (listy or kinds & {'seq'}) and name in LIST_MUT:
            if name in ('append', 'appendleft') and args:
                self.mutate(recv, '[]', args[0], f'.{name}()', n, d)
            elif name == 'insert' and len(args) > 1:
                self.mutate(recv, '[]', args[1], '.insert()', n, d)
            elif name == 'extend' and args:
                self.mutate(recv, '[]', self.iter_elem(args[0]), '.extend()', n, d)
            else:
                self.mutate(recv, None, None, f'.{name}()', n, d)
                if name in ('pop', 'popleft'):
                    return self.elem(recv).withdeps(d)
            return V(NONE)
        if 'dict' in kinds:
            if name in DICT_MUT:
                val = args[1] if name == 'setdefault' and len(args) > 1 else (self.elem(args[0]) if name == 'update' and args else None)
                self.mutate(recv, '[]' if val is not None else None, val, f'.{name}()', n, d)
                return self.elem(recv).withdeps(d) if name != 'update' else V(NONE)
            if name == 'get':
                return join(self.elem(recv), *(args[1:] or [V(NONE)])).withdeps(d | F(x for x in recv.deps))
            if name == 'items':
                a = self.alloc(n, 'it', T('iter'), recv.deps)
                t = self.alloc(n, 'itt', T('tuple'))
                ts = next(iter(t.orig))[1]
                self.hput(ts, '[0]', self.elem(recv, '[k]'))
                self.hput(ts, '[1]', self.elem(recv))
                self.hput(next(iter(a.orig))[1], '[]', t)
                return a
            if name == 'keys':
                return self.alloc(n, 'it', T('iter'), recv.deps, elem=self.elem(recv, '[k]'))
            if name == 'values':
                return self.alloc(n, 'it', T('iter'), recv.deps, elem=self.elem(recv))
            if name == 'copy':
                return self.alloc(n, 'it', T('dict'), recv.deps, elem=self.elem(recv))
        if kinds & {'set', 'frozenset'}:
            if name in SET_MUT and 'set' in kinds:
                val = args[0] if name == 'add' and args else (self.iter_elem(args[0]) if name == 'update' and args else None)
                self.mutate(recv, '[]' if val is not None else None, val, f'.{name}()', n, d)
                return self.elem(recv).withdeps(d) if name == 'pop' else V(NONE)
            if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                return self.alloc(n, 'st', T('set'), recv.deps | d, elem=join(self.elem(recv), *[self.iter_elem(a) for a in args]))
        if (listy or kinds & {'seq', 'tuple', 'tup'}) and name == 'copy':
            return self.alloc(n, 'cp', T('list'), recv.deps, elem=self.elem(recv))
        if kinds & {'list', 'tuple', 'tup', 'seq'} and name in ('index', 'count'):
            return V(INT, EMPTY, self.use(recv) | d)
        if kinds == {'str'}:
            return V(STR if name not in ('split', 'startswith', 'endswith', 'encode', 'isdigit') else ANY, EMPTY, self.use(recv) | d)
        if not kinds or kinds <= {'any'}:
            # unknown receiver type: if a name is only a mutator of builtin containers, treat it as one
            if name in ('append', 'extend', 'insert', 'sort', 'reverse', 'appendleft') and not (kinds and recv.orig == EMPTY):
                val = args[0] if name == 'append' and args else (self.iter_elem(args[0]) if name == 'extend' and args else None)
                self.mutate(recv, '[]' if val is not None else None, val, f'.{name}()', n, d)
                return V(NONE)
            if name in ('execute', 'executemany', 'executescript', 'commit', 'close', 'write'):
                self.s.io = True
                self.s.effdeps |= alld | self.pcd()
                return V(ANY, EMPTY, alld)
            self.s.effdeps |= alld if name not in ('get', 'items', 'values', 'keys', 'index', 'count', 'copy') else EMPTY
            return V(ANY, EMPTY, self.use(recv) | d)
        if kinds <= {'none'}:
            return V(ANY, EMPTY, self.use(recv) | d)
        if any(t[0] == 'inst' for t in recv.types):
            self.s.effdeps |= alld
        return V(ANY, EMPTY, self.use(recv) | d)

    def mutate_rand(self, recv, name, n):
        pass

    def call_ext(self, name, n, args, kw, env, alld):
        d = alld
        short = name.split('.', 1)[1] if '.' in name else name
        if name.startswith('builtins.'):
            return self.call_builtin(short, n, args, kw, env, alld)
        if name in EXT_MUT0 and args:
            val = args[1] if len(args) > 1 else None
            self.mutate(args[0], '[]' if val is not None else None, val, name, n, alld)
            if name in ('heapq.heappop', 'heapq.heapreplace', 'heapq.heappushpop'):
                return self.elem(args[0]).withdeps(alld)
            if name.startswith('operator.i'):
                return args[0]
            return V(NONE)
        if name.startswith('numpy.'):
            if short in NP_MUT0 and args:
                self.mutate(args[0], '[]', V(ANY, EMPTY, alld), f'np.{short}', n, alld)
                return V(NONE)
            if 'out' in kw:
                self.mutate(kw['out'], '[]', V(ANY, EMPTY, alld), f'out= of np.{short}', n, alld)
            if short in NP_ALIAS and args and ('ndarray',) in args[0].types:
                return V(NDARRAY, F((ext(o, '[]') if symbolic(o) else o) for o in args[0].orig), args[0].deps | alld)
            if short == 'array' and 'copy' in kw and args and ('ndarray',) in args[0].types:
                return V(NDARRAY, args[0].orig, alld)
            if short in ('int32', 'int64', 'float64'):
                return V(INT, EMPTY, alld)
            if short == 'ndindex':
                a = self.alloc(n, 'it', T('iter'), alld, elem=V(T('tuple'), EMPTY, alld))
                return a
            if short == 'broadcast_shapes':
                return V(F([('tuple', INT)]), EMPTY, alld)
            if short == 'nonzero':
                t = self.alloc(n, 'nz', T('tuple'), alld, elem=V(NDARRAY, EMPTY, alld))
                return t
            return self.alloc(n, 'nd', NDARRAY, alld)
        if name in ('functools.cache', 'functools.lru_cache', 'functools.partial') and args:
            return args[0]
        if name == 'functools.reduce' and args:
            el = self.iter_elem(args[1]) if len(args) > 1 else BOT
            acc = join(args[2], el) if len(args) > 2 else el
            r = acc
            for _ in range(2):
                r = join(r, self.call_value(args[0], [r, el], n, env))
            return r.withdeps(self.use(V(EMPTY, EMPTY, args[1].deps)) if len(args) > 1 else EMPTY).withdeps(
                F(o for o in args[1].orig if symbolic(o) and o[0] != 'cache') if len(args) > 1 else EMPTY)
        if name.startswith('operator.') and args:
            inv = {v: k for k, v in OPNAME.items()}
            if short in inv and len(args) == 2:
                return self.binop(inv[short](), args[0], args[1], n)
            return V(ANY, EMPTY, alld)
        if name.startswith('itertools.'):
            els = [self.iter_elem(a) for a in args]
            if short in ('product', 'zip_longest', 'combinations', 'permutations', 'combinations_with_replacement', 'pairwise'):
                t = self.alloc(n, 'tt', T('tuple'))
                ts = next(iter(t.orig))[1]
                if short in ('product', 'zip_longest'):
                    for i, e in enumerate(els):
                        self.hput(ts, f'[{i}]', e)
                elif els:
                    self.hput(ts, '[]', els[0])
                return self.alloc(n, 'it', T('iter'), alld, elem=t)
            if short == 'groupby' and args:
                t = self.alloc(n, 'tt', T('tuple'))
                ts = next(iter(t.orig))[1]
                key = self.call_value(kw['key'], [els[0]], n, env) if 'key' in kw else els[0]
                g = self.alloc(n, 'gg', T('iter'), alld, elem=els[0])
                self.hput(ts, '[0]', key)
                self.hput(ts, '[1]', g)
                return self.alloc(n, 'it', T('iter'), alld, elem=t)
            if short == 'count':
                return V(F([('iter', INT)]), EMPTY, alld)
            el = join(*els) if els else BOT
            if short == 'chain.from_iterable':
                el = self.iter_elem(el)
            return self.alloc(n, 'it', T('iter'), alld, elem=el)
        if name == 'random.Random':
            return V(T('rand'), self.alloc(n, 'rand').orig, alld)
        if name in ('collections.defaultdict', 'collections.OrderedDict', 'collections.Counter'):
            return self.alloc(n, 'dd', T('dict'), alld if name.endswith('Counter') else EMPTY)
        if name == 'collections.deque':
            return self.alloc(n, 'dq', T('deque'), EMPTY, elem=self.iter_elem(args[0]) if args else BOT)
        if name in ('copy.copy', 'copy.deepcopy') and args:
            c = self.alloc(n, 'cp', args[0].types, self.use(args[0]), elem=self.elem(args[0]))
            return c
        if name.startswith('math.'):
            return V(FLOAT if short in ('exp', 'sqrt', 'log', 'log2', 'pi') else INT, EMPTY, alld)
        if name.startswith('pandas.'):
            return V(T('frame'), EMPTY, alld)
        if name in ('dataclasses.astuple', 'dataclasses.asdict', 'dataclasses.replace') and args:
            if name.endswith('replace'):
                return V(args[0].types, self.alloc(n, 'rep').orig, alld)
            return V(T('tuple'), EMPTY, alld)
        if name.startswith('sqlite3.') or name.startswith('time.'):
            self.s.io = True
            self.s.effdeps |= alld | self.pcd()
            return V(ANY, EMPTY, alld)
        if name == 'object.__setattr__':
            if len(args) > 2:
                self.mutate(args[0], '.*', args[2], 'object.__setattr__', n, alld)
            return V(NONE)
        # any other library call: result computed from its arguments; the effect is not local
        if name.startswith(('svg.', 'argparse.')):
            self.s.effdeps |= alld
        return V(ANY, EMPTY, alld)

    def call_value(self, fv, args, n, env):
        outs = []
        for t in fv.types:
            if t[0] == 'func':
                outs.append(self.call_func(t[1], args, {}, n, dict(env) if t[1].parent is self.f else None))
            elif t[0] == 'bound':
                if t[1].kind == 'static':
                    outs.append(self.call_func(t[1], args, {}, n))
                else:
                    outs.append(self.call_func(t[1], [V(F([('inst', t[1].cls)]), fv.orig, fv.deps)] + args, {}, n))
            elif t[0] == 'class':
                outs.append(self.construct(t[1], args, {}, n, fv, False, []))
            elif t[0] == 'ext':
                outs.append(self.call_ext(t[1], n, args, {}, env, F().union(*[self.use(a) for a in args])))
        if outs:
            return join(*outs)
        d = F().union(self.use(fv), *[self.use(a) for a in args])
        self.s.effdeps |= d
        return V(ANY, EMPTY, d)

    def call_builtin(self, name, n, args, kw, env, alld):
        a0 = args[0] if args else None
        if name in ('len', 'int', 'abs', 'ord', 'hash', 'id', 'round'):
            if name == 'abs' and a0 is not None and ('ndarray',) in a0.types:
                return self.alloc(n, 'nd', NDARRAY, alld)
            if name == 'len' and a0 is not None:
                gl = [m for t in a0.types if t[0] == 'inst' for m in self.an.impls(t[1], '__len__')]
                if gl:
                    return join(*[self.call_func(m, [a0], {}, n) for m in gl])
            return V(INT, EMPTY, alld)
        if name in ('float',):
            return V(FLOAT, EMPTY, alld)
        if name in ('str', 'repr', 'format', 'chr', 'ascii', 'hex', 'bin'):
            return V(STR, EMPTY, alld)
        if name in ('bool', 'isinstance', 'issubclass', 'hasattr', 'callable', 'any', 'all'):
            return V(BOOL, EMPTY, alld)
        if name == 'range':
            return V(T('range'), EMPTY, alld)
        if name in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
            e = self.iter_elem(a0) if a0 is not None else BOT
            if a0 is not None and isinstance(n, ast.Call) and n.args:
                self.iterate_effects(n.args[0], a0, env)
            t = {'sorted': 'list', 'reversed': 'iter'}.get(name, name)
            dd = a0.deps if a0 is not None else EMPTY
            if a0 is not None:
                dd = dd | F(o for o in a0.orig if symbolic(o) and o[0] != 'cache')
            for k in kw.values():
                dd |= self.use(k)
            return self.alloc(n, name, T(t), dd, elem=e)
        if name == 'dict':
            els = list(kw.values())
            base = []
            if a0 is not None:
                base.append(self.elem(a0) if any(t[0] == 'dict' for t in a0.types) else self.elem(self.iter_elem(a0), '[1]'))
            a = self.alloc(n, 'dict', T('dict'), EMPTY, elem=join(*els, *base) if els or base else BOT)
            if a0 is not None:
                self.hput(next(iter(a.orig))[1], '[k]', self.iter_elem(a0) if any(t[0] == 'dict' for t in a0.types) else self.elem(self.iter_elem(a0), '[0]'))
            return a
        if name == 'enumerate':
            t = self.alloc(n, 'et', T('tuple'))
            ts = next(iter(t.orig))[1]
            self.hput(ts, '[0]', V(INT, EMPTY, F().union(*[self.use(a) for a in args[1:]]) if args[1:] else EMPTY))
            self.hput(ts, '[1]', self.iter_elem(a0))
            return self.alloc(n, 'e', T('iter'), self.seqdeps(a0), elem=t)
        if name == 'zip':
            t = self.alloc(n, 'zt', T('tuple'))
            ts = next(iter(t.orig))[1]
            for i, a in enumerate(args):
                self.hput(ts, f'[{i}]' if not any(isinstance(x, ast.Starred) for x in getattr(n, 'args', [])) else '[]', self.iter_elem(a))
            return self.alloc(n, 'z', T('iter'), F().union(*[self.seqdeps(a) for a in args]) if args else EMPTY, elem=t)
        if name in ('map', 'filter'):
            els = [self.iter_elem(a) for a in args[1:]]
            r = self.call_value(a0, els, n, env)
            return self.alloc(n, 'm', T('gen'), F().union(*[self.seqdeps(a) for a in args]), elem=r if name == 'map' else els[0])
        if name in ('min', 'max', 'sum', 'next'):
            e = self.iter_elem(a0) if len(args) == 1 or name in ('sum', 'next') else join(*args)
            if name == 'next':
                return e.withdeps(alld)
            if name == 'sum':
                if any(t[0] == 'inst' for t in e.types):
                    return V(e.types, self.alloc(n, 'sum').orig, alld)
                if ('ndarray',) in e.types:
                    return self.alloc(n, 'nd', NDARRAY, alld)
                return V(e.types or INT, EMPTY, alld)
            if 'key' in kw:
                self.call_value(kw['key'], [e], n, env)
            return e.withdeps(alld)
        if name == 'divmod':
            for t in (a0.types if a0 is not None else ()):
                if t[0] == 'inst':
                    ms = self.an.impls(t[1], '__divmod__')
                    if ms:
                        return join(*[self.call_func(m, args, {}, n) for m in ms])
            return V(F([('tup', (INT, INT))]), EMPTY, alld)
        if name in ('print', 'open', 'input', 'exec', 'eval'):
            self.s.io = True
            self.s.effdeps |= alld | self.pcd()
            return V(NONE)
        if name == 'getattr' and args:
            if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                r = self.getattr_(a0, n.args[1].value, n)
                return join(r, *(args[2:])).withdeps(alld)
            return V(ANY, F(ext(o, '.*') for o in a0.orig if symbolic(o)), alld)
        if name in ('setattr', 'delattr') and args:
            self.mutate(a0, '.*', args[2] if len(args) > 2 else None, name, n, alld)
            return V(NONE)
        if name == 'super':
            me = self.f.receiver()
            if me and self.f.cls:
                types = F(('inst', b) for b in self.f.cls.bases)
                return V(types, F([('p', me, ())]))
        if name == 'object.__setattr__' and len(args) > 2:
            self.mutate(args[0], '.*', args[2], 'object.__setattr__', n, alld)
            return V(NONE)
        if name == 'type' and len(args) == 1:
            return V(F(('class', t[1]) for t in a0.types if t[0] == 'inst') or ANY, F(ext(o, '.__class__') for o in a0.orig if symbolic(o)), a0.deps)
        if name in ('slice',):
            return V(T('slice'), EMPTY, alld)
        if name == 'vars' and a0 is not None:
            return V(T('dict'), a0.orig, alld)
        if name == 'NotImplemented':
            return V(T('notimpl'))
        return V(ANY, EMPTY, alld)

    def seqdeps(self, a):
        return F(a.deps) | F(o for o in a.orig if symbolic(o) and o[0] != 'cache')


def only_raises(body):
    return bool(body) and isinstance(body[-1], ast.Raise) and all(isinstance(s, (ast.Expr, ast.Assign, ast.Raise)) for s in body)


def has_exit(body):
    """Does a block leave the function or the round early?"""
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Continue, ast.Break)):
                return True
    return False


_loc = {}


def local_names(f):
    if f in _loc:
        return _loc[f]
    out = set()
    gl = set()
    for n in walk_local(f.node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            gl |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    # names bound inside nested lambdas' parameters are not ours
    out -= gl
    _loc[f] = out
    return out


def guess_types(f, a):
    """An unannotated parameter used like an array is one."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == a and n.attr in ('shape', 'dtype', 'ndim'):
            return NDARRAY
        if isinstance(n, ast.Call) and dotted(n.func) and dotted(n.func).startswith('np.') and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == a \
                and dotted(n.func) in ('np.any', 'np.all', 'np.argmax', 'np.count_nonzero'):
            return NDARRAY
    return EMPTY
