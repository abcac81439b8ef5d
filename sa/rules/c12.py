"""C12: every argument has an effect (interprocedural dependence analysis, E1)."""
import ast, os
from ..front import walk_local, dotted
from ..flow import local_names
from .c01 import api
from ..words import edits, REWRITTEN

EXPLAIN = ('Interprocedural data- and control-dependence analysis: for every operation and every parameter, does the parameter reach a returned or yielded '
           'value, an effect (a store into existing state, output, the database) or a branch that chooses between them? A parameter that reaches nothing, or '
           'only a check that raises, is reported. A function that has a parameter and calls another one accepting the same-named optional parameter must hand it '
           'on or use it itself; every command-line option must reach an effect of the search.')
ASSUME = ['Dependence is over-approximated (an argument that reaches a result only through a call the analysis does not know counts as effective).']


def roots(deps):
    """Parameter names (with paths) a dependency set mentions."""
    return {d for d in deps if d[0] == 'p'}


def tree_deps(t, out, depth=0):
    """All dependencies and origins in a summary tree."""
    if t is None or depth > 12:
        return
    types, orig, deps, contents = t[0], t[1], t[2], t[3]
    out |= set(deps) | set(orig)
    for step, sub in contents:
        tree_deps(sub, out, depth + 1)


def influence(s):
    out = set(s.effdeps)
    tree_deps(s.ret, out)
    tree_deps(s.yields, out)
    for k, t in s.muts.items():
        tree_deps(t, out)
    return out


def trivial(f):
    """Abstract declarations and bodies that do nothing."""
    if isinstance(f.node, ast.Lambda):
        return False
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return f.abstract or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def overrides(p, an, f):
    """Does f implement an operation declared or implemented by another class (so its signature is not its own)?"""
    if f.cls is None:
        return False
    for c in f.cls.mro()[1:]:
        if f.name in c.methods:
            return True
    return any(f.name in c.methods for c in an.subclasses.get(f.cls, []) if c is not f.cls)


PROTOCOL = {'__exit__', '__conform__', '__getitem__', '__contains__', '__eq__'}


def check(ctx):
    an, p = ctx.an, ctx.prog
    R1 = ctx.rule('effective', 'each parameter reaches a result, an effect, or a branch between results')
    R2 = ctx.rule('forwarded', 'a same-named optional parameter of a callee is handed on (or the parameter is used otherwise)')
    R3 = ctx.rule('options', 'each command-line option reaches an effect of the search')
    for f in p.funcs:
        if trivial(f):
            continue
        inf = influence(an.sum[f])
        names = {d[1] for d in inf if d[0] in ('p', 'cap')}
        for a in f.allparams():
            if a == f.receiver() or a.startswith('_'):
                continue
            if a in names:
                ctx.ok(R1, f'{f.short}({a})')
                continue
            if f.name in PROTOCOL or overrides(p, an, f) or isinstance(f.node, ast.Lambda):
                ctx.undecided(R1, f'{f.short}({a})', 'the signature is prescribed by an interface')
                continue
            if a in {d[1] for d in an.sum[f].guard} and checker(f, an.sum[f]):
                ctx.ok(R1, f'{f.short}({a}): decides about an error, which is all {f.name} is for')
                continue
            raises = a in {d[1] for d in an.sum[f].guard}
            if raises and (edits(f.qual, f.node) or 0) > REWRITTEN:
                ctx.undecided(R1, f'{f.short}({a})', 'decides whether an error is raised, in a function written anew')
                continue
            how = 'only decides whether an error is raised' if raises else 'reaches neither a result nor an effect'
            ctx.violate(R1, f'{f.short}|{a}', f.loc(), f'{f.short}: parameter {a} {how}')
    ctx.floor(R1, 350)
    forwarded(ctx, R2)
    options(ctx, R3)


def checker(f, s):
    """A function that only raises or returns nothing."""
    return not f.is_gen and not s.muts and (s.ret is None or all(t[0] in ('none', 'bool') for t in s.ret[0])) and \
        not any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value in (None, True)) for n in walk_local(f.node))


def forwarded(ctx, R):
    an, p = ctx.an, ctx.prog
    for f in p.funcs:
        for n, tg, e in an.calls_in.get(f, []):
            if not tg or any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                continue
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == 'super':
                continue
            kws = {k.arg for k in n.keywords}
            for a in f.params + f.kwonly:
                if a == f.receiver():
                    continue
                absent = []
                for g in tg:
                    ps = list(g.params)
                    if g.kind in ('method', 'class'):
                        ps = ps[1:]
                    absent.append(a in g.defaults and a not in kws and (a not in ps or ps.index(a) >= len(n.args)))
                if all(absent) and f not in tg:
                    ctx.violate(R, f'{f.short}|{a}|{tg[0].short}', f.loc(n), f'{f.short} does not hand its {a} on to {tg[0].short}, which takes its default instead')
                elif all(absent) and tg == [f] or tuple(tg) == (f,) and all(absent):
                    if delegates(f, n) and f.defaults[a] is not None:
                        ctx.violate(R, f'{f.short}|{a}|again', f.loc(n), f'{f.short} does not hand its {a} on when it calls itself with converted arguments, and the default is taken instead')
                elif any(a in g.params + g.kwonly for g in tg):
                    ctx.ok(R, f'{f.short}({a}) -> {tg[0].short}')


def delegates(f, call):
    """The call's result is returned as it is, and the call is the only one: another form of the same question."""
    again = [n for n in walk_local(f.node) if isinstance(n, ast.Call) and ast.dump(n.func) == ast.dump(call.func)]
    return len(again) == 1 and any(isinstance(n, ast.Return) and n.value is call for n in walk_local(f.node))


def options(ctx, R):
    """Every option the search declares is read by something other than a check or a message."""
    m = next((m for m in ctx.prog.modules.values() if m.rel == 'search.py'), None)
    if m is None:
        return
    dests, quiet = {}, set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            dest = next((k.value.value for k in n.keywords if k.arg == 'dest' and isinstance(k.value, ast.Constant)), None)
            if dest is None and names:
                dest = next((x for x in names if x.startswith('--')), names[0]).lstrip('-').replace('-', '_')
            if dest:
                dests[dest] = n
        if isinstance(n, ast.Assert) or isinstance(n, ast.Call) and dotted(n.func) == 'print':
            quiet |= {id(x) for x in ast.walk(n)}
    read = {n.attr for mm in ctx.prog.modules.values() for n in ast.walk(mm.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in quiet}
    read |= {n.value for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in dests}
    if any(isinstance(n, ast.Call) and dotted(n.func) == 'vars' for n in ast.walk(m.tree)):
        ctx.undecided(R, 'search.py', 'the options are read through vars()')
        return
    for d, n in dests.items():
        if d in read:
            ctx.ok(R, d)
        else:
            ctx.violate(R, f'option|{d}', f'{m.rel}:{n.lineno}', f'search.py: option {d} has no effect on the search')
