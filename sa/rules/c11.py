"""C11: every operation ends in a result or a proper error (name, attribute, call and import resolution; path coverage)."""
import ast, builtins, inspect, os
from ..front import AnalysisBroken, walk_local, dotted, has_yield
from .. import extlib
from ..sure import Sure
from ..flow import local_names

EXPLAIN = ('Whole-program resolution of every name, attribute, import and argument list (project symbols from the syntax tree, standard library from its own '
           'definitions, numpy and pandas from their installed sources; receivers by the type analysis E1, reported only when no possible type fits), and '
           'control-flow coverage: a function that yields a value on one path and falls off its end on another is reported, as are operands that are raised or '
           'returned without being errors or values.')
ASSUME = ['Types come from annotations, constructors and call-site propagation; an attribute is reported only when none of the inferred types has it.',
          'The installed numpy and pandas are the ones users have.']

BINARY = {f'__{p}{n}__' for p in ('', 'r', 'i') for n in ('add', 'sub', 'mul', 'matmul', 'truediv', 'floordiv', 'mod', 'divmod', 'pow', 'and', 'or', 'xor', 'lshift', 'rshift')}
VALUE_DUNDERS = BINARY | {'__neg__', '__pos__', '__abs__', '__invert__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__hash__', '__repr__', '__str__', '__len__',
                          '__getitem__', '__contains__', '__iter__', '__call__', '__bool__', '__int__', '__index__'}
PROC = {'__init__', '__post_init__', '__setattr__', '__setitem__', '__delitem__', '__exit__'}
BUILTIN_T = {'int': int, 'str': str, 'list': list, 'tuple': tuple, 'tup': tuple, 'dict': dict, 'set': set, 'frozenset': frozenset, 'bytes': bytes, 'range': range,
             'bool': bool, 'float': float, 'none': type(None)}
VALUES = os.path.join(os.path.dirname(__file__), '..', 'api_values.txt')


# ---------------------------------------------------------------- control flow
def key(t):
    return ast.dump(t)


FLIP = {'Lt': {'<'}, 'LtE': {'<', '='}, 'Gt': {'>'}, 'GtE': {'>', '='}, 'Eq': {'='}, 'NotEq': {'<', '>'}}


def atom(t):
    """(subject, set of outcomes for which t holds, all outcomes)"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        a = atom(t.operand)
        return (a[0], a[2] - a[1], a[2]) if a else None
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        n = type(t.ops[0]).__name__
        l, r = key(t.left), key(t.comparators[0])
        if n in FLIP:
            s = FLIP[n]
            if l > r:
                l, r = r, l
                s = {{'<': '>', '>': '<', '=': '='}[x] for x in s}
            return (('cmp', l, r), frozenset(s), frozenset('<=>'))
        if n in ('Is', 'IsNot', 'In', 'NotIn'):
            pos = n in ('Is', 'In')
            return ((n.replace('Not', ''), l, r), frozenset([pos]), frozenset([True, False])) if pos else ((n.replace('Not', ''), l, r), frozenset([False]), frozenset([True, False]))
    if isinstance(t, ast.Constant):
        return (('const',), frozenset([True]) if t.value else frozenset(), frozenset([True]))
    return (('expr', key(t)), frozenset([True]), frozenset([True, False]))


class Flow:
    """Can control fall through a block?  Keeps the outcomes still possible for simple tests."""

    def block(self, body, facts):
        for s in body:
            facts = self.stmt(s, facts)
            if facts is None:
                return None
        return facts

    def assume(self, facts, test, val):
        if facts is None:
            return None
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == val:
                for v in test.values:
                    facts = self.assume(facts, v, val)
                    if facts is None:
                        return None
                return facts
            if len(test.values) == 1:
                return self.assume(facts, test.values[0], val)
            # one of them: impossible if all are impossible
            if all(self.assume(facts, v, val) is None for v in test.values):
                return None
            return facts
        a = atom(test)
        if a is None:
            return facts
        subj, holds, alls = a
        cur = facts.get(subj, alls)
        new = cur & holds if val else cur - holds
        if not new:
            return None
        out = dict(facts)
        out[subj] = new
        return out

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: a[k] | b[k] for k in a if k in b}

    def kill(self, facts, s):
        if facts is None:
            return None
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        attrs = {n.attr for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
        if not names and not attrs:
            return facts
        return {k: v for k, v in facts.items() if not any(f"id='{x}'" in str(k) for x in names) and not any(f"attr='{x}'" in str(k) for x in attrs)}

    def stmt(self, s, facts):
        if isinstance(s, (ast.Return, ast.Raise)):
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Assert):
            return self.assume(facts, s.test, True)
        if isinstance(s, ast.If):
            a = self.assume(facts, s.test, True)
            b = self.assume(facts, s.test, False)
            a = self.block(s.body, a) if a is not None else None
            b = self.block(s.orelse, b) if b is not None else None
            return self.join(a, b)
        if isinstance(s, ast.While):
            infinite = isinstance(s.test, ast.Constant) and s.test.value
            brk = has_break(s)
            f = self.kill(facts, s)
            if infinite:
                return f if brk else None
            g = self.assume(f, s.test, False)
            g = self.block(s.orelse, g) if g is not None else None
            return f if brk else g
        if isinstance(s, ast.For):
            f = self.kill(facts, s)
            g = self.block(s.orelse, f)
            return f if has_break(s) else g
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.block(s.body, facts)
        if isinstance(s, ast.Try):
            f = self.block(s.body, facts)
            if f is not None and s.orelse:
                f = self.block(s.orelse, f)
            base = self.kill(facts, s)
            for h in s.handlers:
                f = self.join(f, self.block(h.body, base))
            if s.finalbody:
                g = self.block(s.finalbody, f if f is not None else base)
                return None if f is None else g
            return f
        if isinstance(s, ast.Match):
            out, rest = None, facts
            seen = set()
            for c in s.cases:
                out = self.join(out, self.block(c.body, facts))
                if c.guard is None and irrefutable(c.pattern):
                    return out
                if c.guard is None:
                    seen |= literals(c.pattern)
            if self.exhausts and self.exhausts(s.subject, seen):
                return out
            return self.join(out, rest)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and dotted(s.value.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
            return None
        return self.kill(facts, s)

    exhausts = None


def literals(p):
    if isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Constant):
        return {p.value.value}
    if isinstance(p, ast.MatchOr):
        return set().union(*[literals(x) for x in p.patterns])
    if isinstance(p, ast.MatchSingleton):
        return {p.value}
    return set()


def irrefutable(p):
    if isinstance(p, ast.MatchAs):
        return p.pattern is None or irrefutable(p.pattern)
    if isinstance(p, ast.MatchOr):
        return any(irrefutable(x) for x in p.patterns)
    return False


def has_break(loop):
    todo = list(loop.body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While)):
            todo.extend(n.orelse)
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def none_ok(ann):
    if ann is None:
        return False
    s = ast.unparse(ann)
    return 'None' in s or 'Optional' in s or s in ('Any', 'typing.Any', 'object')


def check_paths(ctx, RP, RO):
    vals = set(open(VALUES).read().split())
    parent = {}
    for m in ctx.prog.modules.values():
        for n in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(n):
                parent[ch] = n
    used = set()
    for f in ctx.prog.funcs:
        for n, tg, e in ctx.an.calls_in.get(f, []):
            if not isinstance(parent.get(n), ast.Expr):
                used |= set(tg)
    for f in ctx.prog.funcs:
        if isinstance(f.node, ast.Lambda) or f.is_gen or f.abstract:
            continue
        rets = [n for n in walk_local_nolambda(f.node) if isinstance(n, ast.Return)]
        valued = [r for r in rets if r.value is not None and not (isinstance(r.value, ast.Constant) and r.value.value is None)]
        explicit_none = [r for r in rets if r.value is not None and isinstance(r.value, ast.Constant) and r.value.value is None]
        bare = [r for r in rets if r.value is None]
        fl = Flow()
        fl.exhausts = lambda subj, seen, f=f: exhaustive(ctx, f, subj, seen)
        falls = fl.block(f.node.body, {}) is not None
        ann_none = f.returns is not None and isinstance(f.returns, ast.Constant) and f.returns.value is None
        dunder = f.cls is not None and f.name in VALUE_DUNDERS
        if valued and f.name not in PROC:
            if (falls or bare) and not (none_ok(f.returns) and not dunder):
                ctx.violate(RP, f.short, f.loc(bare[0] if bare else f.node.body[-1]), f'{f.short} returns a value on some paths but ends without one on another')
            elif explicit_none and f.name in BINARY:
                ctx.violate(RP, f.short, f.loc(explicit_none[0]), f'{f.short} returns None instead of declining or raising')
            else:
                ctx.ok(RP, f'{f.short}: every path returns or raises')
        elif not valued and f.name not in PROC and not stub(f):
            meant = dunder or f.short in vals or f.returns is not None and not ann_none and not none_ok(f.returns)
            if (meant or f in used and f.name not in ('__enter__',)) and (falls or bare):
                ctx.violate(RP, f.short, f.loc(), f'{f.short} is used for its value but never returns one')
            else:
                ctx.ok(RP)
        for r in walk_local(f.node):
            if isinstance(r, ast.Raise) and r.exc is not None:
                t = r.exc.func if isinstance(r.exc, ast.Call) else r.exc
                e = ctx.prog.ext_name(f.mod, t)
                if e and e.startswith('builtins.'):
                    o = getattr(builtins, e.split('.')[1], None)
                    if not (isinstance(o, type) and issubclass(o, BaseException)):
                        ctx.violate(RO, f'{f.short}|raise {e}', f.loc(r), f'{f.short} raises {ast.unparse(t)}, which is not an exception')
                        continue
                elif isinstance(r.exc, (ast.Constant, ast.JoinedStr, ast.Tuple)):
                    ctx.violate(RO, f'{f.short}|raise', f.loc(r), f'{f.short} raises a value that is not an exception')
                    continue
                elif isinstance(t, ast.Name):
                    c = ctx.prog.resolve_class(f.mod, t)
                    if c is not None and c.closed() and not c.ext_bases:
                        ctx.violate(RO, f'{f.short}|raise {t.id}', f.loc(r), f'{f.short} raises {t.id}, which is not an exception')
                        continue
                ctx.ok(RO)
            elif isinstance(r, ast.Return) and r.value is not None:
                t = r.value.func if isinstance(r.value, ast.Call) else r.value
                e = ctx.prog.ext_name(f.mod, t) if isinstance(t, (ast.Name, ast.Attribute)) else None
                if e and e.startswith('builtins.') and '.' not in e[9:]:
                    o = getattr(builtins, e[9:], None)
                    if isinstance(o, type) and issubclass(o, BaseException) and t.id not in all_locals(f):
                        ctx.violate(RO, f'{f.short}|return {e}', f.loc(r), f'{f.short} returns the exception {ast.unparse(t)} instead of raising it')
                        continue
                ctx.ok(RO)
            elif isinstance(r, ast.Expr) and isinstance(r.value, (ast.Call, ast.Name)):
                t = r.value.func if isinstance(r.value, ast.Call) else r.value
                e = ctx.prog.ext_name(f.mod, t) if isinstance(t, ast.Name) else None
                o = getattr(builtins, e[9:], None) if e and e.startswith('builtins.') else None
                if isinstance(o, type) and issubclass(o, BaseException) or e == 'builtins.NotImplemented':
                    ctx.violate(RO, f'{f.short}|expr {e}', f.loc(r), f'{f.short} mentions {ast.unparse(t)} without raising or returning it')


def exhaustive(ctx, f, subj, seen):
    """A match over a Literal-annotated attribute or parameter that lists every literal."""
    d = dotted(subj)
    if not d:
        return False
    anns = []
    if d in f.annot:
        anns.append(f.annot[d])
    if d.startswith('self.') and f.cls:
        for k in f.cls.mro():
            a = k.attrs.get(d[5:])
            if a and a[0] is not None:
                anns.append(a[0])
            ini = k.methods.get('__init__')
            if ini is not None:
                for s in walk_local(ini.node):
                    if isinstance(s, ast.Assign) and dotted(s.targets[0]) == d and isinstance(s.value, ast.Name) and s.value.id in ini.annot:
                        anns.append(ini.annot[s.value.id])
    for a in anns:
        if isinstance(a, ast.Subscript) and (dotted(a.value) or '').endswith('Literal'):
            els = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if {e.value for e in els if isinstance(e, ast.Constant)} <= seen:
                return True
    return False


def walk_local_nolambda(node):
    todo = list(node.body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo[0:0] = list(ast.iter_child_nodes(n))


# ---------------------------------------------------------------- names
def all_locals(f):
    out, g = set(), f
    while g is not None:
        out |= set(local_names(g)) | set(g.allparams())
        g = g.parent
    return out


def comp_names(node):
    return {n.id for c in ast.walk(node) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}


def check_names(ctx, RN, RI, RA):
    p = ctx.prog
    for m in p.modules.values():
        glob = set(m.functions) | set(m.classes) | set(m.vars) | set(m.imports) | {'__name__', '__file__', '__doc__', '__annotations__', '__package__'}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Global,)):
                glob |= set(n.names)
        # module-level bindings of any other form
        todo = list(m.tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                glob.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                glob.add(n.id)
            if isinstance(n, ast.alias):
                glob.add((n.asname or n.name).split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                glob.add(n.name)
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                glob.add(n.name)
            todo.extend(ast.iter_child_nodes(n))
        if m.star:
            ctx.undecided(RN, m.name, 'star import')
            continue

        def visit(n, scopes, inclass):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for d in list(getattr(n, 'decorator_list', [])) + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d, scopes, inclass)
                a = n.args
                loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
                f = p.by_node.get(n)
                if f is not None:
                    loc |= set(local_names(f)) | set(f.allparams())
                gl = {x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
                sc = [s for s in scopes if s[0] != 'class'] + [('fn', loc | gl)]
                for s in (n.body if isinstance(n.body, list) else [n.body]):
                    visit(s, sc, False)
                return
            if isinstance(n, ast.ClassDef):
                for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                    visit(d, scopes, inclass)
                loc = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {s.name for s in n.body if hasattr(s, 'name')}
                for s in n.body:
                    visit(s, scopes + [('class', loc)], True)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                loc = {x.id for c in n.generators for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                # the first iterable is evaluated outside
                visit(n.generators[0].iter, scopes, inclass)
                sc = [s for s in scopes if s[0] != 'class'] + [('fn', loc)]
                for i, c in enumerate(n.generators):
                    if i:
                        visit(c.iter, sc, False)
                    for x in c.ifs:
                        visit(x, sc, False)
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    visit(x, sc, False)
                return
            if isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    visit(n.value, scopes, inclass)
                visit(n.target, scopes, inclass)
                return
            if isinstance(n, ast.arg):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if not any(n.id in s[1] for s in scopes) and n.id not in glob and not hasattr(builtins, n.id):
                    ctx.violate(RN, f'{m.name}|{n.id}', f'{m.rel}:{n.lineno}', f'the name {n.id} is not defined')
                else:
                    ctx.ok(RN)
                return
            for ch in ast.iter_child_nodes(n):
                visit(ch, scopes, inclass)
        for s in m.tree.body:
            visit(s, [], False)
        # imports
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    check_import(ctx, RI, m, n, a.name, None)
            elif isinstance(n, ast.ImportFrom):
                base = resolve_from(m, n, p)
                for a in n.names:
                    check_import(ctx, RI, m, n, base, a.name)
        # attributes of modules, classes
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                d = dotted(n)
                if not d:
                    continue
                root = d.split('.')[0]
                f = enclosing(p, m, n)
                if f is not None and root in all_locals(f) and root not in local_imports(f):
                    continue
                base = p.resolve_dotted(m, dotted(n.value)) if root not in (local_imports(f) if f else {}) else ('ext', local_imports(f)[root] + ''.join('.' + x for x in d.split('.')[1:-1]))
                if base is None:
                    continue
                if base[0] == 'mod' and base[1] in p.modules:
                    if f'{base[1]}.{n.attr}' in p.modules or p.lookup(p.modules[base[1]], n.attr) is not None or n.attr.startswith('__'):
                        ctx.ok(RA)
                    else:
                        ctx.violate(RA, f'{m.name}|{d}', f'{m.rel}:{n.lineno}', f'module {base[1]} has no attribute {n.attr}')
                elif base[0] in ('mod', 'ext'):
                    if not extlib.installed(base[1].split('.')[0]):
                        continue
                    h = extlib.ext_has(f'{base[1]}.{n.attr}')
                    if h is False:
                        ctx.violate(RA, f'{m.name}|{d}', f'{m.rel}:{n.lineno}', f'{base[1]} has no attribute {n.attr}')
                    elif h:
                        ctx.ok(RA)
                elif base[0] == 'class':
                    c = base[1]
                    if c.closed() and not c.has_attr(n.attr) and n.attr not in {x for x, _, _ in c.fields()} and not hasattr(object, n.attr) \
                            and n.attr not in ('__name__', '__qualname__', '__dataclass_fields__', '__mro__', '__annotations__'):
                        ctx.violate(RA, f'{m.name}|{d}', f'{m.rel}:{n.lineno}', f'class {c.name} has no attribute {n.attr}')
                    else:
                        ctx.ok(RA)


_encl = {}


def enclosing(p, m, node):
    if m not in _encl:
        tab = {}

        def go(n, f):
            if n in p.by_node:
                f = p.by_node[n]
            tab[n] = f
            for ch in ast.iter_child_nodes(n):
                go(ch, f)
        go(m.tree, None)
        _encl[m] = tab
    return _encl[m].get(node)


def local_imports(f):
    out, g = {}, f
    while g is not None:
        for n in walk_local(g.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[(a.asname or a.name).split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        g = g.parent
    return out


def resolve_from(m, n, p):
    if not n.level:
        return n.module
    pk = m.name.split('.')
    if not m.path.endswith('__init__.py'):
        pk = pk[:-1]
    pk = pk[:len(pk) - (n.level - 1)]
    return '.'.join(pk + ([n.module] if n.module else []))


def check_import(ctx, rule, m, n, mod, name):
    p = ctx.prog
    where = f'{m.rel}:{n.lineno}'
    if mod in p.modules:
        if name is None or name == '*' or f'{mod}.{name}' in p.modules or p.lookup(p.modules[mod], name) is not None:
            ctx.ok(rule, f'{m.name}: {mod} {name or ""}')
        else:
            ctx.violate(rule, f'{m.name}|{mod}.{name}', where, f'{m.name} imports {name} from {mod}, which does not define it')
        return
    top = (mod or '').split('.')[0]
    inst = extlib.installed(top)
    if inst is None:
        ctx.undecided(rule, f'{m.name}: {mod}', 'site-packages not found')
    elif not inst or not declared(ctx, top):
        ctx.violate(rule, f'{m.name}|{top}', where, f'{m.name} imports {mod}, which is neither in the standard library nor among the project\'s dependencies')
    else:
        h = extlib.ext_has(mod if name is None else f'{mod}.{name}')
        if h is False:
            ctx.violate(rule, f'{m.name}|{mod}.{name}', where, f'{m.name} imports {mod}{"." + name if name else ""}, which does not exist')
        elif h:
            ctx.ok(rule)
        else:
            ctx.undecided(rule, f'{m.name}: {mod}.{name}')


def declared(ctx, top):
    import sys, re
    if top in sys.stdlib_module_names:
        return True
    try:
        txt = open(os.path.join(ctx.prog.repo, 'pyproject.toml')).read()
    except OSError:
        return True
    return re.search(rf'(?im)^\s*"?{re.escape(top)}\b', txt) is not None


# ---------------------------------------------------------------- assignment before use
class Assigned:
    """Names possibly assigned so far; loops are taken to run, conditions to go either way."""

    def __init__(self, ctx, rule, f):
        self.ctx, self.rule, self.f = ctx, rule, f
        self.locals = set(local_names(f)) - set(f.allparams())
        self.locals -= comp_only(f)

    def run(self):
        if not self.locals or isinstance(self.f.node, ast.Lambda):
            return
        self.block(self.f.node.body, {k: frozenset() for k in ()} or {})

    # state: name -> 'yes' | set of condition-name sets under which it is missing
    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
            if st is None:
                return None
        return st

    def use(self, node, st, conds=()):
        if st is None or node is None:
            return
        comp = comp_names(node)
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in comp:
                got = st.get(n.id)
                if got is None and not in_nested(node, n):
                    self.ctx.violate(self.rule, f'{self.f.short}|{n.id}', self.f.loc(n), f'{self.f.short}: {n.id} is read before anything has been assigned to it')
                elif isinstance(got, frozenset) and not in_nested(node, n):
                    now = names_of(self.conds)
                    if not any(g & now for g in got):
                        self.ctx.violate(self.rule, f'{self.f.short}|{n.id}', self.f.loc(n), f'{self.f.short}: {n.id} is read but one branch leaves it unassigned')
                else:
                    self.ctx.ok(self.rule)
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                st[n.target.id] = 'yes'

    conds = []

    def bind(self, tgt, st):
        for n in ast.walk(tgt):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,)):
                st[n.id] = 'yes'

    def join(self, a, b, cond):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x == y == 'yes':
                out[k] = 'yes'
            else:
                miss = frozenset()
                for z in (x, y):
                    if isinstance(z, frozenset):
                        miss |= z
                out[k] = miss | frozenset([cond])
        return out

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            st[s.name] = 'yes'
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st[(a.asname or a.name).split('.')[0]] = 'yes'
            return st
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.use(t, st)
                self.bind(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            else:
                self.use(s.target, st)
            self.use(s.value, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, st)
                self.bind(s.target, st)
            return st
        if isinstance(s, ast.Return):
            self.use(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.use(s.exc, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append(dict(st))
            return None
        if isinstance(s, ast.Assert):
            self.use(s.test, st)
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return None
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.pop(t.id, None)
                else:
                    self.use(t, st)
            return st
        if isinstance(s, ast.If):
            self.use(s.test, st)
            old = self.conds
            self.conds = old + [s.test]
            a = self.block(s.body, dict(st))
            b = self.block(s.orelse, dict(st))
            self.conds = old
            return self.join(a, b, names_of([s.test]))
        if isinstance(s, (ast.For, ast.While)):
            self.use(s.iter if isinstance(s, ast.For) else s.test, st)
            if isinstance(s, ast.For):
                self.bind(s.target, st)
            self.loops.append([])
            old = self.conds
            self.conds = old + [s.iter if isinstance(s, ast.For) else s.test]
            out = self.block(s.body, dict(st))
            self.conds = old
            br = self.loops.pop()
            cond = names_of([s.iter if isinstance(s, ast.For) else s.test])
            for b in br:
                out = self.join(out, b, names_of([x for x in ast.walk(s) if isinstance(x, ast.If)]) | cond) if out is not None else b
            if out is None:
                out = st
            o = self.block(s.orelse, dict(out))
            return o if o is not None else (out if br or s.orelse else None)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(st))
            if a is not None:
                a = self.block(s.orelse, a)
            for h in s.handlers:
                hs = dict(st)
                if h.name:
                    hs[h.name] = 'yes'
                a = self.join(a, self.block(h.body, hs), frozenset({'<except>'}))
            if s.finalbody:
                r = self.block(s.finalbody, dict(a) if a is not None else dict(st))
                return None if a is None else r
            return a
        if isinstance(s, ast.Match):
            self.use(s.subject, st)
            out = None
            first = True
            total = False
            nm = names_of([s.subject])
            for c in s.cases:
                x = dict(st)
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        x[n.name] = 'yes'
                if c.guard is not None:
                    self.use(c.guard, x)
                x = self.block(c.body, x)
                out = x if first else self.join(out, x, nm)
                first = False
                total = total or c.guard is None and irrefutable(c.pattern)
            if not total:
                out = self.join(out, dict(st), nm | {'<match>'})
            return out
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                self.use(ch, st)
        return st

    loops = []


def comp_only(f):
    """Names bound only as comprehension variables."""
    store = {}
    comp = set()
    for c in ast.walk(f.node):
        if isinstance(c, ast.comprehension):
            for n in ast.walk(c.target):
                if isinstance(n, ast.Name):
                    comp.add(n)
    out = {}
    for n in walk_local(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.setdefault(n.id, []).append(n in comp)
    return {k for k, v in out.items() if all(v)}


def names_of(tests):
    return frozenset(n.id for t in tests for n in ast.walk(t) if isinstance(n, ast.Name))


def in_nested(root, n):
    """Is n inside a lambda, whose body runs later?"""
    for x in ast.walk(root):
        if isinstance(x, ast.Lambda) and n in set(ast.walk(x)):
            return True
    return False


# ---------------------------------------------------------------- typed checks
def tname(t):
    return t[1].name if t[0] in ('inst', 'class') and hasattr(t[1], 'name') else t[0]


def has_attr(ctx, t, name):
    """True / False / None."""
    k = t[0]
    if k == 'inst' or k == 'class':
        c = t[1]
        if not c.closed():
            return None
        if c.has_attr(name) or name in {x for x, _, _ in c.fields()} or hasattr(object, name) or name in ('__name__', '__dict__', '__dataclass_fields__', '__qualname__'):
            return True
        for s in ctx.an.subclasses.get(c, []):
            if s.has_attr(name) or name in {x for x, _, _ in s.fields()}:
                return None
        return False
    if k in BUILTIN_T:
        return hasattr(BUILTIN_T[k], name)
    if k == 'ndarray':
        a = extlib.ndarray_attrs()
        return None if a is None else name in a
    if k == 'rand':
        import random
        return hasattr(random.Random, name)
    return None


def check_types(ctx, RT, RC, RB, RF, RU):
    an, p = ctx.an, ctx.prog
    sure = Sure(an)

    def firm(f, e, test):
        # what the dataflow types say must also follow from annotations, constructors and literals alone
        ty = sure.types(f, e)
        return bool(ty) and all(test(t) for t in ty)
    for f in p.funcs:
        hasattr_guard = {n.args[1].value for n in ast.walk(f.node) if isinstance(n, ast.Call) and dotted(n.func) in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
        for n in walk_local(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                v = an.vals.get(n.value)
                if v is None or not v.types or n.attr in hasattr_guard:
                    continue
                types = {t for t in v.types if t[0] not in ('notimpl', 'none')} or set(v.types)
                if any(t == ('ext', 'builtins.NotImplemented') for t in types):
                    types = {t for t in types if t != ('ext', 'builtins.NotImplemented')}
                res = [has_attr(ctx, t, n.attr) for t in types]
                if res and all(r is False for r in res) and firm(f, n.value, lambda t: has_attr(ctx, t, n.attr) is False):
                    ctx.violate(RT, f'{f.short}|{ast.unparse(n)[:60]}', f.loc(n), f'{f.short}: {"/".join(sorted({tname(t) for t in types}))} has no attribute {n.attr}')
                elif any(r for r in res):
                    ctx.ok(RT)
            elif isinstance(n, ast.BinOp):
                a, b = an.vals.get(n.left), an.vals.get(n.right)
                if a is None or b is None:
                    continue
                r = binop_ok(ctx, n.op, a.types, b.types)
                if r is False and binop_ok(ctx, n.op, sure.types(f, n.left), sure.types(f, n.right)) is False:
                    ctx.violate(RB, f'{f.short}|{ast.unparse(n)[:60]}', f.loc(n), f'{f.short}: {type(n.op).__name__} is not defined between {"/".join(sorted(map(tname, a.types)))} and {"/".join(sorted(map(tname, b.types)))}')
                elif r:
                    ctx.ok(RB)
            elif isinstance(n, ast.Call):
                v = an.vals.get(n.func)
                if v is not None and v.types and all(t[0] in ('int', 'str', 'list', 'tuple', 'tup', 'dict', 'set', 'bool', 'float', 'bytes', 'none') for t in v.types) and not v.types <= {('none',)}:
                    ctx.violate(RC, f'{f.short}|{ast.unparse(n.func)[:50]}', f.loc(n), f'{f.short}: {ast.unparse(n.func)} is called but is a {"/".join(sorted(map(tname, v.types)))}')
            elif isinstance(n, (ast.Assign,)) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)):
                v = an.vals.get(n.value)
                want = n.targets[0].elts
                if v is None or not v.types or any(isinstance(x, ast.Starred) for x in want):
                    continue
                if all(t[0] == 'tup' and len(t[1]) != len(want) for t in v.types):
                    ctx.violate(RU, f'{f.short}|{ast.unparse(n.targets[0])}', f.loc(n), f'{f.short}: unpacks {len(next(iter(v.types))[1])} values into {len(want)} names')
                else:
                    ctx.ok(RU)
        # calls
        for n, tg, e in an.calls_in.get(f, []):
            tgs = list(tg)
            v = an.vals.get(n.func)
            classes = [t[1] for t in (v.types if v else ()) if t[0] == 'class']
            probs = []
            cands = 0
            star = any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords)
            if v is not None:
                for t in v.types:
                    if t[0] in ('func', 'bound'):
                        cands += 1
                        pr = arity(t[1], n, t[0] == 'bound', an, f)
                        if pr:
                            probs.append(pr)
                    elif t[0] == 'class':
                        cands += 1
                        pr = ctor_arity(ctx, t[1], n)
                        if pr:
                            probs.append(pr)
                    elif t[0] not in ('none',):
                        cands += 1
                        if t[0] == 'ext' and len(v.types) == 1:
                            pr = ext_arity(t[1], n)
                            if pr:
                                probs.append(pr)
            if cands and len(probs) == cands and (not isinstance(n.func, ast.Attribute) or firm(f, n.func.value, lambda t: True) or all(t[0] in ('func', 'class', 'ext') for t in v.types)):
                ctx.violate(RC, f'{f.short}|{ast.unparse(n.func)[:50]}', f.loc(n), f'{f.short}: call {ast.unparse(n)[:80]}: {probs[0]}')
            elif cands:
                ctx.ok(RC)
            # unhashable arguments of cached functions
            if len(tgs) == 1 and (tgs[0].cached or tgs[0].inst_cached) and not star:
                for a in list(n.args) + [k.value for k in n.keywords]:
                    av = an.vals.get(a)
                    if av is not None and av.types and all(t[0] in ('list', 'dict', 'set', 'ndarray') for t in av.types):
                        ctx.violate(RC, f'{f.short}|{ast.unparse(n.func)[:50]}|unhashable', f.loc(n), f'{f.short}: passes an unhashable {tname(next(iter(av.types)))} to the cached {tgs[0].short}')
        # frozen classes
        if f.cls is not None and f.receiver() and f.name not in ():
            c = next((k for k in f.cls.mro() if k.dataclass is not None), None)
            if c is not None and c.dataclass.get('frozen'):
                for n in walk_local(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == f.receiver() and f.kind == 'method':
                        ctx.violate(RF, f'{f.short}|{n.attr}', f.loc(n), f'{f.short} assigns self.{n.attr}, but {f.cls.name} is frozen')
        for n in walk_local(f.node):
            if isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                v = an.vals.get(n.value)
                if v is not None and v.types and all(t[0] in ('tuple', 'tup', 'str', 'int', 'bytes', 'range', 'gen') for t in v.types) and firm(f, n.value, lambda t: t[0] in ('tuple', 'tup', 'str', 'int', 'bytes', 'range')):
                    ctx.violate(RF, f'{f.short}|{ast.unparse(n)[:50]}', f.loc(n), f'{f.short}: item assignment to a {"/".join(sorted(map(tname, v.types)))}')
                else:
                    ctx.ok(RF)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                v = an.vals.get(n.value)
                if v is not None and v.types and all(t[0] in ('gen', 'int', 'bool', 'set') for t in v.types) and firm(f, n.value, lambda t: t[0] in ('int', 'bool', 'set')):
                    ctx.violate(RT, f'{f.short}|{ast.unparse(n)[:50]}', f.loc(n), f'{f.short}: a {"/".join(sorted(map(tname, v.types)))} cannot be indexed')
            elif isinstance(n, ast.Call) and dotted(n.func) == 'len' and len(n.args) == 1 and 'len' not in all_locals(f):
                v = an.vals.get(n.args[0])
                if v is not None and v.types and all(t[0] in ('gen', 'int', 'bool', 'float', 'none') or t[0] == 'inst' and t[1].closed() and t[1].find_method('__len__') is None
                                                     and not any('__len__' in s.methods for s in an.subclasses.get(t[1], [])) for t in v.types) and (firm(f, n.args[0], lambda t: True) or v.types == {('gen',)}):
                    ctx.violate(RT, f'{f.short}|{ast.unparse(n)[:50]}', f.loc(n), f'{f.short}: a {"/".join(sorted(map(tname, v.types)))} has no len()')


OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.MatMult: 'matmul', ast.Pow: 'pow', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Div: 'truediv',
       ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}


def binop_ok(ctx, op, A, B):
    if not A or not B:
        return None
    A = {t for t in A if t[0] != 'notimpl' and t != ('ext', 'builtins.NotImplemented')}
    B = {t for t in B if t[0] != 'notimpl' and t != ('ext', 'builtins.NotImplemented')}
    if not A or not B:
        return None
    name = OPN[type(op)]
    verdicts = set()
    for a in A:
        for b in B:
            verdicts.add(pair_ok(ctx, name, a, b))
    if verdicts == {False}:
        return False
    return True if True in verdicts else None


SAMPLE = {'int': 3, 'bool': True, 'float': 1.5, 'str': 'a', 'bytes': b'a', 'list': [1], 'tuple': (1,), 'tup': (1,), 'dict': {}, 'set': {1}, 'frozenset': frozenset([1]), 'none': None, 'range': range(3)}


def pair_ok(ctx, name, a, b):
    if a[0] in SAMPLE and b[0] in SAMPLE:
        import operator
        fn = {'and': 'and_', 'or': 'or_'}.get(name, name)
        try:
            if fn == 'mod' and a[0] in ('str', 'bytes'):
                return True
            getattr(operator, fn)(SAMPLE[a[0]], SAMPLE[b[0]])
            return True
        except TypeError:
            return False
        except Exception:
            return True
    if a[0] == 'inst' or b[0] == 'inst':
        def has(t, d):
            if t[0] == 'inst':
                if not t[1].closed():
                    return None
                return t[1].find_method(d) is not None or any(d in s.methods for s in ctx.an.subclasses.get(t[1], []))
            if t[0] in SAMPLE:
                return False if True else hasattr(SAMPLE[t[0]], d)
            return None
        x, y = has(a, f'__{name}__'), has(b, f'__r{name}__')
        if a[0] in SAMPLE:
            x = False
        if b[0] in SAMPLE:
            y = False
        if x is False and y is False:
            return False
        return True if x or y else None
    return None


def arity(g, n, bound, an, f):
    ps = list(g.params)
    if g.kind == 'class' or g.kind == 'method' and bound and not class_receiver(an, n):
        ps = ps[1:]
    elif g.kind == 'static':
        pass
    return match_args(ps, g.kwonly, g.defaults, g.vararg, g.kwarg, n, g.node.args)


def class_receiver(an, n):
    if isinstance(n.func, ast.Attribute):
        v = an.vals.get(n.func.value)
        return v is not None and v.types and all(t[0] == 'class' for t in v.types)
    return False


def match_args(ps, kwonly, defaults, vararg, kwarg, n, args=None):
    star = any(isinstance(x, ast.Starred) for x in n.args)
    dstar = any(k.arg is None for k in n.keywords)
    npos = sum(1 for x in n.args if not isinstance(x, ast.Starred))
    if npos > len(ps) and not vararg:
        return f'{npos} positional arguments for {len(ps)} parameters'
    kws = {k.arg for k in n.keywords if k.arg}
    posonly = {x.arg for x in args.posonlyargs} if args is not None else set()
    for k in kws:
        if k not in ps and k not in kwonly and not kwarg or k in posonly and not kwarg:
            return f'no parameter named {k}'
        if k in ps[:npos] and not star:
            return f'{k} is given twice'
    if not star and not dstar:
        missing = [x for i, x in enumerate(ps) if i >= npos and x not in kws and x not in defaults]
        missing += [x for x in kwonly if x not in kws and x not in defaults]
        if missing:
            return f'argument {missing[0]} is missing'
    return None


def ctor_arity(ctx, c, n):
    ini = c.find_method('__init__')
    new = c.find_method('__new__')
    if ini is not None:
        return match_args(ini.params[1:], ini.kwonly, ini.defaults, ini.vararg, ini.kwarg, n)
    if new is not None or not c.closed():
        return None
    dc = next((k for k in c.mro() if k.dataclass is not None), None)
    if dc is not None and dc.dataclass.get('init', True):
        fs = c.fields()
        if ctx.an.subclasses.get(c, [c]) != [c] and len(ctx.an.subclasses.get(c, [])) > 1:
            return None
        ps = [x for x, a, d in fs if not (isinstance(d, ast.Call) and any(k.arg == 'init' and isinstance(k.value, ast.Constant) and not k.value.value for k in d.keywords))]
        return match_args(ps, [], {x: d for x, a, d in fs if d is not None}, None, None, n)
    if dc is None and (n.args or n.keywords) and not any(isinstance(x, ast.Starred) for x in n.args) and not any(k.arg is None for k in n.keywords):
        if len(ctx.an.subclasses.get(c, [])) > 1 or c.fields():
            return None
        return 'takes no arguments'
    return None


def ext_arity(e, n):
    sig = extlib.ext_signature(e)
    if sig is None or any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
        return None
    try:
        sig.bind(*[0] * len(n.args), **{k.arg: 0 for k in n.keywords})
    except TypeError as x:
        return str(x)
    return None


def check_folds(ctx, R):
    """functools.reduce(f, xs) raises on an empty xs: what it runs over must have members, or have been looked at."""
    for f in ctx.prog.funcs:
        if f.name in getattr(ctx.prog, 'refs', {}):
            continue
        for n in walk_local(f.node):
            if not isinstance(n, ast.Call) or n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
                continue
            v = ctx.an.vals.get(n.func)
            if {t for t in (v.types if v is not None else ())} != {('ext', 'functools.reduce')} or len(n.args) not in (2, 3):
                continue
            where = f'{f.short}: {ast.unparse(n)[:60]}'
            if len(n.args) == 3:
                ctx.ok(R, where)
                continue
            over = n.args[1]
            if isinstance(over, ast.Call) and isinstance(over.func, ast.Name) and over.func.id in ('map', 'list', 'tuple', 'reversed') and over.args:
                over = over.args[-1]
            if isinstance(over, (ast.ListComp, ast.GeneratorExp)) and len(over.generators) == 1:
                over = over.generators[0].iter
            top = f
            while top.parent is not None:
                top = top.parent
            if not isinstance(over, (ast.Name, ast.Attribute)) or looked_at(top.node, ast.unparse(over), n) or isinstance(over, ast.Name) and over.id not in f.allparams() or f.name.startswith('_'):
                ctx.undecided(R, where, 'whether it has members is not known')
            else:
                ctx.violate(R, f'{f.short}|{ast.unparse(over)}', f.loc(n), f'{f.short}: reduce has no starting value, and {ast.unparse(over)} may be empty')


def looked_at(node, text, but):
    inside = set(ast.walk(but))
    return any(isinstance(k, (ast.If, ast.IfExp, ast.Assert, ast.While)) and text in ast.unparse(k.test) for k in ast.walk(node) if k not in inside)


def check(ctx):
    _encl.clear()
    RN = ctx.rule('names', 'every name read is bound in an enclosing scope, the module or builtins')
    RI = ctx.rule('imports', 'every import names an existing module and symbol, from the standard library or the declared dependencies')
    RA = ctx.rule('attributes', 'every attribute of a module or class exists')
    RL = ctx.rule('assigned', 'no local is read on a path that leaves it unassigned')
    RP = ctx.rule('paths', 'no path through a value-producing function ends without a value')
    RO = ctx.rule('outcome', 'what is raised is an exception and what is returned is not one')
    RT = ctx.rule('typed-attributes', 'the receiver has the attribute, can be indexed, has a length')
    RC = ctx.rule('calls', 'arguments fit the parameters of the callee')
    RB = ctx.rule('operators', 'operators are defined between their operands')
    RF = ctx.rule('assignable', 'what is assigned to can be assigned to')
    RU = ctx.rule('unpack', 'as many values are unpacked as there are names')
    check_names(ctx, RN, RI, RA)
    for f in ctx.prog.funcs:
        a = Assigned(ctx, RL, f)
        a.loops, a.conds = [], []
        a.run()
    check_paths(ctx, RP, RO)
    check_types(ctx, RT, RC, RB, RF, RU)
    check_folds(ctx, ctx.rule('folds', 'a fold without a starting value is not handed a sequence that may be empty'))
    ctx.floor(RN, 2000)
    ctx.floor(RP, 150)
    ctx.floor(RT, 500)
    ctx.floor(RC, 400)
