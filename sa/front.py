"""Front end: load /repo's Python sources, build symbol tables.  Nothing of /repo is imported or run."""
from __future__ import annotations
import ast, copy, builtins, os, sys

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor the rules rely on has vanished: an error of the check, neither pass nor violation."""


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.rel = os.path.relpath(path, REPO)
        self.tree = ast.parse(src, path)
        self.imports = {}      # local name -> ('mod', dotted) | ('sym', dotted, name)
        self.functions = {}    # name -> Func
        self.classes = {}      # name -> Class
        self.vars = {}         # module-level variables: name -> list of value nodes
        self.star = []


class Class:
    def __init__(self, mod, node, outer=None):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = (outer.qual if outer else mod.name) + '.' + node.name
        self.methods = {}
        self.attrs = {}        # class-level assignments: name -> (annotation, value)
        self.inner = {}
        self.outer = outer
        self.bases = []        # resolved Class objects
        self.ext_bases = []    # dotted names of external bases
        self.inst_attrs = {}   # self.X assigned in methods: name -> list of (Func, value node or None)
        self.dataclass = None  # None or dict of options
        self.slots = None

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo.extend(c.bases)
        return out

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def fields(self):
        """Dataclass fields in order: [(name, annotation node, default node or None)]."""
        out = {}
        for c in reversed(self.mro()):
            if c.dataclass is None:
                continue
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if 'ClassVar' in ast.unparse(s.annotation):
                        continue
                    out[s.target.id] = (s.annotation, s.value)
        return [(k, a, d) for k, (a, d) in out.items()]

    def has_attr(self, name):
        for c in self.mro():
            if name in c.methods or name in c.attrs or name in c.inst_attrs or name in c.inner:
                return True
            if c.slots and name in c.slots:
                return True
        return False

    def closed(self):
        """True if every base is known, so that attribute lookup can be decided."""
        return all(not c.ext_bases and '__getattr__' not in c.methods and '__getattribute__' not in c.methods
                   for c in self.mro())


class Func:
    def __init__(self, mod, node, cls=None, parent=None):
        self.mod, self.node, self.cls, self.parent = mod, node, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        base = parent.qual + '.<locals>' if parent else (cls.qual if cls else mod.name)
        self.qual = f'{base}.{self.name}' + (f'@{node.lineno}' if isinstance(node, ast.Lambda) else '')
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(node, 'decorator_list', [])]
        self.kind = 'function'
        if cls is not None:
            self.kind = 'method'
            if any(d in ('staticmethod',) for d in self.decorators):
                self.kind = 'static'
            if any(d in ('classmethod', 'abc.abstractclassmethod') for d in self.decorators):
                self.kind = 'class'
        self.property = any(d in ('property', 'functools.cached_property', 'cached_property') for d in self.decorators)
        self.abstract = any(d and 'abstract' in d for d in self.decorators)
        self.cached = any(d and d.split('.')[-1] in ('cache', 'lru_cache', 'cached_property') for d in self.decorators)
        self.inst_cached = False
        self.nested = {}
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.annot = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.is_gen = not isinstance(node, ast.Lambda) and has_yield(node)
        self.returns = getattr(node, 'returns', None)

    def allparams(self):
        return self.params + self.kwonly + [x for x in (self.vararg, self.kwarg) if x]

    def receiver(self):
        return self.params[0] if self.kind in ('method', 'class') and self.params else None

    def loc(self, node=None):
        return f'{self.mod.rel}:{getattr(node or self.node, "lineno", 0)}'

    @property
    def short(self):
        return self.qual[len('peyl.'):] if self.qual.startswith('peyl.') else self.qual

    def __repr__(self):
        return f'<{self.qual}>'


def has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return f'{b}.{n.attr}' if b else None
    return None


def walk_local(node):
    """Walk a function body without entering nested function or class definitions (lambdas are entered)."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo[0:0] = list(ast.iter_child_nodes(n))


SCRIPT = 'script__'


def script(tree):
    body = []
    for s in copy.deepcopy(tree.body):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.If) and not s.orelse and '__name__' in ast.dump(s.test):
            body += s.body
        else:
            body.append(s)
    f = ast.parse(f'def {SCRIPT}():\n    pass').body[0]
    f.body = body or f.body
    return f


class Program:
    def __init__(self, repo=None, extra=(), imports=None):
        """extra: reference definitions [(module, class path, FunctionDef, options)] placed next to what they describe, imports: what they import."""
        repo = repo or REPO
        self.repo = repo
        self.modules = {}
        files = []
        pk = os.path.join(repo, 'peyl')
        if not os.path.isdir(pk):
            raise AnalysisBroken('peyl/ has vanished')
        for root, dirs, fs in os.walk(pk):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(root, f)
                    name = 'peyl.' + os.path.relpath(p, pk)[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    files.append((name, p))
        for f in sorted(os.listdir(repo)):
            if f.endswith('.py') and not f.startswith('test') and f not in ('conftest.py', 'setup.py'):
                files.append((f[:-3], os.path.join(repo, f)))
        for name, p in files:
            with open(p, encoding='utf-8') as fh:
                src = fh.read()
            try:
                self.modules[name] = Module(name, p, src)
            except SyntaxError as e:
                raise AnalysisBroken(f'{p} does not parse: {e}')
        self.refs = {}         # name of an injected reference definition -> what was given for it
        for mod in sorted({x[0] for x in extra if x[3]['name'] == SCRIPT}):
            # what a script does when run, as a function
            if mod in self.modules:
                self.modules[mod].tree.body.append(script(self.modules[mod].tree))
        for mod, path, node, meta in extra:
            body = self.modules[mod].tree.body if mod in self.modules else None
            for k in path:
                k = next((x for x in body or () if isinstance(x, ast.ClassDef) and x.name == k), None)
                body = k.body if k is not None else None
            self.refs[node.name] = meta
            if body is not None:
                body.append(node)
        for mod, nodes in (imports or {}).items():
            m = self.modules.get(mod)
            if m is not None:
                bound = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in m.tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))} | \
                    {(a.asname or a.name.split('.')[0]) for x in ast.walk(m.tree) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
                for x in nodes:
                    x.names = [a for a in x.names if (a.asname or a.name.split('.')[0]) not in bound]
                m.tree.body[0:0] = [x for x in nodes if x.names]
        self.funcs = []        # all Func incl. nested and lambdas
        self.by_node = {}
        self.all_classes = []
        for m in self.modules.values():
            self._collect(m)
        for c in self.all_classes:
            self._bases(c)
        for f in list(self.funcs):
            self._inst_attrs(f)

    # ---- symbol tables
    def _collect(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = ('mod', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    pkg = m.name if m.path.endswith('__init__.py') else m.name.rpartition('.')[0]
                    for _ in range(n.level - 1):
                        pkg = pkg.rpartition('.')[0]
                    base = pkg + ('.' + n.module if n.module else '')
                for a in n.names:
                    if a.name == '*':
                        m.star.append(base)
                    elif f'{base}.{a.name}' in self.modules or os.path.exists(os.path.join(self.repo, *(f'{base}.{a.name}'.split('.'))) + '.py'):
                        m.imports[a.asname or a.name] = ('mod', f'{base}.{a.name}')
                    else:
                        m.imports[a.asname or a.name] = ('sym', base, a.name)
        self._body(m, m.tree.body, None, None)

    def _body(self, m, body, cls, fn):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, s, cls, fn)
                if cls is not None and fn is None:
                    cls.methods[s.name] = f
                elif fn is not None:
                    fn.nested[s.name] = f
                else:
                    m.functions[s.name] = f
                self._reg(f)
            elif isinstance(s, ast.ClassDef):
                c = Class(m, s, cls)
                self.all_classes.append(c)
                if cls is not None:
                    cls.inner[s.name] = c
                elif fn is None:
                    m.classes[s.name] = c
                for d in s.decorator_list:
                    nm = dotted(d.func if isinstance(d, ast.Call) else d)
                    if nm and nm.split('.')[-1] == 'dataclass':
                        c.dataclass = {k.arg: getattr(k.value, 'value', None) for k in d.keywords} if isinstance(d, ast.Call) else {}
                self._body(m, s.body, c, None)
                for t in s.body:
                    if isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name):
                        c.attrs[t.target.id] = (t.annotation, t.value)
                    elif isinstance(t, ast.Assign):
                        for tt in t.targets:
                            if isinstance(tt, ast.Name):
                                c.attrs[tt.id] = (None, t.value)
                                if tt.id == '__slots__':
                                    try:
                                        c.slots = list(ast.literal_eval(t.value))
                                    except Exception:
                                        pass
            else:
                if cls is None and fn is None:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            val = s.value if isinstance(s, (ast.Assign, ast.AnnAssign)) else None
                            m.vars.setdefault(n.id, []).append(val)
                        if isinstance(n, ast.ExceptHandler) and n.name:
                            m.vars.setdefault(n.name, []).append(None)
                if fn is None:
                    self._lambdas(m, s, cls, None)
                # defs inside module-level if/try/with blocks
                if cls is None and fn is None:
                    for n in ast.iter_child_nodes(s):
                        pass
                    for blk in ('body', 'orelse', 'finalbody'):
                        b = getattr(s, blk, None)
                        if isinstance(b, list):
                            self._body(m, [x for x in b if isinstance(x, (ast.FunctionDef, ast.ClassDef))], None, None)

    def _reg(self, f):
        self.funcs.append(f)
        self.by_node[f.node] = f
        for n in walk_local(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n not in self.by_node:
                    g = Func(f.mod, n, None, f)
                    f.nested[n.name] = g
                    self._reg(g)
            elif isinstance(n, ast.Lambda) and n not in self.by_node:
                g = Func(f.mod, n, None, f)
                self._reg(g)
        for d in list(f.node.args.defaults) + [x for x in f.node.args.kw_defaults if x]:
            self._lambdas(f.mod, d, None, f.parent)

    def _lambdas(self, m, s, cls, fn):
        for n in ast.walk(s):
            if isinstance(n, ast.Lambda) and n not in self.by_node:
                g = Func(m, n, None, fn)
                self._reg(g)

    def _bases(self, c):
        for b in c.node.bases:
            node = b.value if isinstance(b, ast.Subscript) else b
            r = self.resolve_class(c.mod, node)
            if r is not None:
                c.bases.append(r)
            else:
                d = dotted(node)
                if d and d.split('.')[-1] in ('Generic', 'Protocol', 'ABC', 'object'):
                    continue
                c.ext_bases.append(d or '?')

    def _inst_attrs(self, f):
        if f.cls is None and f.parent is None:
            return
        g = f
        while g.parent is not None:
            g = g.parent
        if g.cls is None or g.kind != 'method' or not g.params:
            return
        me = g.params[0]
        for n in walk_local(f.node):
            if isinstance(n, (ast.Attribute,)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                g.cls.inst_attrs.setdefault(n.attr, []).append((f, None))
            tgt, val = None, None
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                tgt, val = n.targets[0], n.value
            elif isinstance(n, ast.AnnAssign):
                tgt, val = n.target, n.value
            if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == me and val is not None:
                lst = g.cls.inst_attrs.setdefault(tgt.attr, [])
                lst.append((f, n))
                # self.f = functools.cache(self.f)
                if isinstance(val, ast.Call) and self.ext_name(f.mod, val.func) in ('functools.cache', 'functools.lru_cache') and val.args:
                    a = val.args[0]
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == me and a.attr != tgt.attr and all(g.cls.find_method(x) for x in (a.attr, tgt.attr)):
                        g.cls.swapped = getattr(g.cls, 'swapped', []) + [(f, n, tgt.attr, a.attr)]
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == me:
                        for c in self.all_classes:
                            if g.cls in c.mro() and a.attr in c.methods:
                                c.methods[a.attr].inst_cached = True
                        meth = g.cls.find_method(a.attr)
                        if meth:
                            meth.inst_cached = True

    # ---- resolution
    def lookup(self, m, name, depth=0):
        """Resolve a module-level name: ('func',F) ('class',C) ('mod',dotted) ('ext',dotted) ('var',mod,name) or None."""
        if name in m.functions:
            return ('func', m.functions[name])
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.vars:
            return ('var', m, name)
        if name in m.imports:
            k = m.imports[name]
            if k[0] == 'mod':
                return ('mod', k[1])
            if k[1] in self.modules:
                if depth > 8:
                    return None
                return self.lookup(self.modules[k[1]], k[2], depth + 1)
            return ('ext', f'{k[1]}.{k[2]}')
        return None

    def resolve_class(self, m, node):
        d = dotted(node)
        if not d:
            return None
        r = self.resolve_dotted(m, d)
        return r[1] if r and r[0] == 'class' else None

    def resolve_dotted(self, m, d):
        parts = d.split('.')
        r = self.lookup(m, parts[0])
        for p in parts[1:]:
            if r is None:
                return None
            if r[0] == 'mod':
                full = f'{r[1]}.{p}'
                if full in self.modules:
                    r = ('mod', full)
                elif r[1] in self.modules:
                    r = self.lookup(self.modules[r[1]], p)
                else:
                    r = ('ext', full)
            elif r[0] == 'class':
                c = r[1]
                if p in c.inner:
                    r = ('class', c.inner[p])
                else:
                    mm = c.find_method(p)
                    r = ('func', mm) if mm else ('clsattr', c, p)
            elif r[0] == 'ext':
                r = ('ext', f'{r[1]}.{p}')
            else:
                return None
        return r

    def ext_name(self, m, node):
        """Dotted name of an external thing (through import aliases), e.g. 'numpy.any', or builtin name."""
        d = dotted(node)
        if not d:
            return None
        r = self.resolve_dotted(m, d)
        if r is None:
            if '.' not in d and hasattr(builtins, d) and d not in m.vars:
                return 'builtins.' + d
            return None
        if r[0] in ('ext', 'mod'):
            return r[1]
        return None

    def cls(self, qual):
        for c in self.all_classes:
            if c.qual == qual or c.qual == 'peyl.' + qual:
                return c
        return None

    def func(self, qual):
        """Find by dotted name relative to peyl, e.g. 'braid.NFBase.inv' or 'search.main'."""
        for f in self.funcs:
            if f.qual == qual or f.qual == 'peyl.' + qual:
                return f
        return None

    def need(self, qual):
        f = self.func(qual)
        if f is None:
            raise AnalysisBroken(f'anchor {qual} has vanished')
        return f

    def need_method(self, clsqual, name):
        c = self.cls(clsqual)
        if c is None:
            raise AnalysisBroken(f'anchor class {clsqual} has vanished')
        f = c.find_method(name)
        if f is None:
            raise AnalysisBroken(f'anchor {clsqual}.{name} has vanished')
        return f
