"""C02: a memoised result depends only on its key (E1 dependences)."""
import ast
from ..front import AnalysisBroken, walk_local

EXPLAIN = ('Dependence analysis of every memoised computation: functools caches on functions and methods, caches installed per instance, and dictionaries used '
           'as memo tables (a persistent mapping whose every store is guarded by the key being absent and whose values nobody changes). The access paths the '
           'stored value depends on, through data and control flow and through all callees, must be covered by the key.')
ASSUME = ['Access paths are at most 6 steps long; elements of one container are not told apart except by constant index.',
          'Instance attributes assigned only in __init__ are configuration: a per-instance memo need not repeat them in its key.',
          'All braids of one tracker are on rep.n strands.']


def leafs(paths):
    return {p for p in paths if not any(q != p and q[:2] == p[:2] and q[2][:len(p[2])] == p[2] for q in paths)}


def config_attr(ctx, c, attr):
    """attr (e.g. '.rep') of class c is only ever assigned while the object is constructed."""
    for f in ctx.prog.funcs:
        for (o, step, kind, where) in ctx.an.sum[f].muts:
            if f.name in ('__init__', '__post_init__', '__new__'):
                continue
            if f.cls is not None and f.cls in c.mro() + ctx.an.subclasses.get(c, []) and o[0] == 'p' and o[1] == f.receiver():
                full = o[2] + ((step,) if step and step.startswith('.') else ())
                if full[:1] == (attr,):
                    return False
    return True


def memo_tables(ctx):
    """{(func, container origin): [store targets]} for dictionaries used as memo tables."""
    if hasattr(ctx, '_memos'):
        return ctx._memos
    an, p = ctx.an, ctx.prog
    stores = {}
    for (f, tgt), (cont, kd, vd, pc) in an.stores.items():
        for o in cont.orig:
            if o[0] in ('glob', 'cls') or o[0] == 'p' and o[1] == f.receiver() and o[2] and f.cls:
                if not any(t[0] in ('list', 'ndarray', 'seq', 'tuple') for t in cont.types):
                    stores.setdefault((f, o), []).append(tgt)
    deeper = set()
    for f in p.funcs:
        for (o, step, kind, where) in an.sum[f].muts:
            if o[0] == 'p' and f.cls and o[1] == f.receiver():
                for k in range(1, len(o[2])):
                    deeper.add((f.cls.qual, o[2][:k]))
            elif o[0] in ('glob', 'cls'):
                for k in range(0, len(o[2])):
                    deeper.add((o[1], o[2][:k]))
    out = {}
    for (f, o), tgts in stores.items():
        ident = (f.cls.qual, o[2]) if o[0] == 'p' else (o[1], o[2])
        if ident in deeper:
            continue
        if o[0] == 'p' and given(f.cls, o[2][0]) or any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript) and about(ctx, n.target.value, o) for n in ast.walk(f.node)):
            continue                    # data, not a table of results
        if all(guarded(ctx, f, o, t) for t in tgts):
            out[f, o] = tgts
    # every store to the container anywhere must be guarded
    for (f, o), tgts in list(out.items()):
        for (g, o2), t2 in stores.items():
            if o2 == o and (o[0] != 'p' or g.cls is f.cls) and (g, o2) not in out:
                out.pop((f, o), None)
    ctx._memos = out
    return out


def given(c, step):
    """Does the constructor put what it is given there?"""
    name, ini = step[1:], c.find_method('__init__')
    if ini is None:
        return any(n == name and d is None for n, _, d in c.fields())
    ps = set(ini.params[1:] + ini.kwonly)
    return any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name for t in n.targets) and any(isinstance(x, ast.Name) and x.id in ps for x in ast.walk(n.value))
               for n in ast.walk(ini.node))


def memo_stores(ctx):
    """Identities of memo containers, in the form C01 asks for."""
    out = set()
    for (f, o) in memo_tables(ctx):
        out.add((f.cls.qual, o[2][0]) if o[0] == 'p' else (o[0], o[1]))
    return out


def parents_of(f):
    par = {}
    for n in ast.walk(f.node):
        for ch in ast.iter_child_nodes(n):
            par[ch] = n
    return par


def about(ctx, node, o):
    """Does expression node denote the container with origin o?"""
    v = ctx.an.vals.get(node)
    return v is not None and o in v.orig


def absence_tests(ctx, f, o):
    """Nodes in f that look the key up: (node, key expression)."""
    out = []
    for n in walk_local(f.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and about(ctx, n.comparators[0], o):
            out.append((n, n.left))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'setdefault', 'pop') and about(ctx, n.func.value, o) and n.args:
            out.append((n, n.args[0]))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and about(ctx, n.value, o):
            out.append((n, n.slice))
    return out


def guarded(ctx, f, o, tgt):
    par = parents_of(f)
    tests = [n for n, _ in absence_tests(ctx, f, o) if not (isinstance(n, ast.Subscript))]
    subs = [n for n, _ in absence_tests(ctx, f, o) if isinstance(n, ast.Subscript)]
    n = tgt
    while n in par:
        up = par[n]
        if isinstance(up, (ast.If, ast.IfExp)) and n is not up.test:
            for t in ast.walk(up.test):
                if t in tests:
                    return True
                if isinstance(t, ast.Name):
                    for a in walk_local(f.node):
                        if isinstance(a, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t.id for x in a.targets) and a.value in tests:
                            return True
        if isinstance(up, ast.ExceptHandler) and subs:
            return True
        for body in ('body', 'orelse', 'finalbody'):
            blk = getattr(up, body, None)
            if isinstance(blk, list) and n in blk:
                for s in blk[:blk.index(n)]:
                    if isinstance(s, ast.If) and any(t in tests for t in ast.walk(s.test)) and any(isinstance(x, (ast.Return, ast.Continue)) for x in s.body):
                        return True
                    if isinstance(s, ast.Try) and any(x in subs for y in s.body for x in ast.walk(y)) and any(isinstance(x, ast.Return) for y in s.body for x in ast.walk(y)):
                        return True
        n = up
    return False


def expand(f, node, depth=0):
    """Key expression with single-assignment locals substituted, as text."""
    if depth > 4:
        return ast.dump(node)
    assigns = {}
    for a in walk_local(f.node):
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
            assigns.setdefault(a.targets[0].id, []).append(a.value)

    class S(ast.NodeTransformer):
        def visit_Name(self, n):
            v = assigns.get(n.id, [])
            if isinstance(n.ctx, ast.Load) and len(v) == 1 and n.id not in {x.id for x in ast.walk(v[0]) if isinstance(x, ast.Name)}:
                return ast.parse(ast.unparse(v[0]), mode='eval').body
            return n
    import copy
    new = S().visit(copy.deepcopy(node))
    return ast.dump(new) if ast.dump(new) == ast.dump(node) else expand(f, new, depth + 1)


def uncovered(vdeps, kdeps, korig, container, config):
    """Leaf paths of the value's dependences which the key does not determine."""
    out = []
    for q in sorted(leafs({d for d in vdeps if d[:1] == ('p',) and not (d[1] == container[1] and d[2][:len(container[2])] == container[2])})):
        if q in kdeps or any(q[:2] == k[:2] and q[2][:len(k[2])] == k[2] for k in korig):
            continue
        # a prefix of a key path that is itself only the route to it (length, truth) is covered by the longer path
        if any(q[:2] == k[:2] and k[2][:len(q[2])] == q[2] for k in kdeps):
            continue
        if q[:2] == container[:2] and container[0] == 'p' and q[2] and config(q[2][0]):
            continue
        if q[2] and q[2][-1] == '.n':
            continue
        out.append(q)
    return out


def key_origs(ctx, f, node):
    """Objects used whole as (components of) the key."""
    v = ctx.an.vals.get(node)
    out = set()
    if v is None:
        return out
    out |= {o for o in v.orig if o[0] != 'alloc'}
    if isinstance(node, (ast.Tuple, ast.List)):
        for e in node.elts:
            out |= key_origs(ctx, f, e)
    if isinstance(node, ast.Name):
        for a in walk_local(f.node):
            if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in a.targets) and isinstance(a.value, ast.Tuple):
                out |= key_origs(ctx, f, a.value)
    return out


def selected(ctx, f, tgt):
    """Elements at constant positions: {(object, attribute, position)} the key selects, and those the stored value is made from, through calls."""
    from ..spec import run
    from ..canon import Canon
    from ..vn import subterms, isint
    r = run(ctx, f)
    if r is None:
        return set(), set()
    names = {e.name for e in r.events if e.kind == 'call' and e.targets and not e.targets[0].is_gen and (any(e.node is n for n in ast.walk(tgt.slice)) or len(e.targets[0].node.body) <= 4 and not ctx.an.sum[e.targets[0]].muts)}
    for e in r.events:
        if e.kind == 'store' and any(n is tgt for n in ast.walk(e.node)):
            inkey = {t[1] for t in subterms(e.index) if t[0] == 'call'}
            names -= {t[1] for t in subterms(e.value) if t[0] == 'call'} - inkey
    r = run(ctx, f, inline=tuple(sorted(names)))
    need, have = set(), set()
    for e in r.events if r else ():
        if e.kind != 'store' or not any(n is tgt for n in ast.walk(e.node)):
            continue
        for t in subterms(Canon(r).t(e.value)):
            g = ctx.prog.func(t[1]) if t[0] == 'call' else None
            for o in treedeps(ctx.an.sum[g].ret) | treedeps(ctx.an.sum[g].yields) if g is not None else ():
                A = dict(t[2]).get(o[1]) if o[0] == 'p' else None
                if A is not None and len(o[2]) == 2 and o[2][0].startswith('.') and o[2][1][1:-1].lstrip('-').isdigit():
                    need.add((A, o[2][0][1:], int(o[2][1][1:-1])))
    for e in r.events if r and need else ():
        if e.kind == 'store' and any(n is tgt for n in ast.walk(e.node)):
            for t in subterms(Canon(r).t(e.index)):
                if t[0] == 'idx' and t[1][0] == 'attr' and isint(t[2]) and any(t[1][1:] == n[:2] for n in need):
                    have.add((t[1][1], t[1][2], t[2][1]))
    return have, need


def treedeps(t):
    return set() if not t else set(t[1]) | set(t[2]) | {o for _, x in t[3] for o in treedeps(x)}


def an_effects(ctx, g):
    return bool(ctx.an.sum[g].muts)


def check(ctx):
    an, p = ctx.an, ctx.prog
    RD = ctx.rule('memo-key', 'every access path the stored value depends on is covered by the key it is stored under')
    RK = ctx.rule('memo-lookup', 'lookups use the key of the store')
    RC = ctx.rule('cache-inputs', 'a functools-cached function reads no state that can change besides its arguments')
    RI = ctx.rule('cache-iterator', 'a cached result is not a one-shot iterator')
    RE = ctx.rule('cache-equality', 'equality and hashing of the objects used as cache keys take every field read into account')
    RH = ctx.rule('cache-hash', 'what an object is hashed by is not kept as something editable, which has no hash')
    RR = ctx.rule('cache-random', 'a cached result is not drawn from a random generator')
    RW = ctx.rule('cache-reset', 'an attribute holding a per-instance cache is rebound only during construction')

    for (f, o), tgts in memo_tables(ctx).items():
        for tgt in tgts:
            cont, kd, vd, pc = an.stores[f, tgt]
            cfg = (lambda a: config_attr(ctx, f.cls, a)) if f.cls else (lambda a: False)
            bad = uncovered(vd, kd, key_origs(ctx, f, tgt.slice), o, cfg)
            name = f'{o[1]}{"".join(o[2])}'
            have, need = selected(ctx, f, tgt)
            for A, a, i in sorted(need - have, key=repr):
                other = sorted(x[2] for x in have if x[:2] == (A, a))
                if other:
                    ctx.violate(RD, f'{f.short}|{name}|.{a}[{i}]', f.loc(tgt), f'{f.short}: the value memoised in {name} depends on element {i} of {a}, its key on element {other[0]}')
            vague = [q for q in bad if q[2] and q[2][-1][1:-1].lstrip('-').isdigit() and (q[:2] + (q[2][:-1] + ('[]',),)) in kd]
            if vague and not (need - have):
                bad = [q for q in bad if q not in vague]
                for q in vague:
                    if not any(x[1:] == (q[2][-2][1:], int(q[2][-1][1:-1])) for x in have):
                        ctx.undecided(RD, f'{f.short}: {name}', f'whether {"".join(q[2])} is the element in the key is not known')
            for q in bad:
                ctx.violate(RD, f'{f.short}|{name}|{q[1]}{"".join(q[2])}', f.loc(tgt),
                            f'{f.short}: the value memoised in {name} depends on {q[1]}{"".join(q[2])}, which is not part of its key {ast.unparse(tgt.slice)}')
            if not bad:
                ctx.ok(RD, f'{f.short}: {name}[{ast.unparse(tgt.slice)}]')
            kt = expand(f, tgt.slice)
            for n, key in absence_tests(ctx, f, o):
                if expand(f, key) == kt:
                    ctx.ok(RK, f'{f.short}: lookup {ast.unparse(n)}')
                    continue
                d1 = leafs({x for x in kd if x[0] == 'p'})
                kv = an.vals.get(key)
                d2 = set(kv.deps) | {x for x in kv.orig if x[0] != 'alloc'} if kv else set()
                if isinstance(key, ast.Tuple):
                    for e in key.elts:
                        ev = an.vals.get(e)
                        d2 |= set(ev.deps) | {x for x in ev.orig if x[0] != 'alloc'} if ev else set()
                d2 = leafs({x for x in d2 if x[0] == 'p'})
                shape = isinstance(key, ast.Tuple) and isinstance(tgt.slice, ast.Tuple) and len(key.elts) != len(tgt.slice.elts)
                order = isinstance(key, ast.Tuple) and isinstance(tgt.slice, ast.Tuple) and sorted(expand(f, e) for e in key.elts) == sorted(expand(f, e) for e in tgt.slice.elts)
                if shape or order or d1 != d2:
                    ctx.violate(RK, f'{f.short}|{name}', f.loc(n), f'{f.short}: {name} is stored under {ast.unparse(tgt.slice)} but looked up under {ast.unparse(key)}')
                else:
                    ctx.undecided(RK, f'{f.short}: {ast.unparse(n)}', 'key expressions differ in form only')

    for f in p.funcs:
        if not (f.cached or f.inst_cached):
            continue
        s = an.sum[f]
        params = set(f.allparams())
        # mutable state read
        bad = []
        for o in s.reads:
            if o[0] == 'glob' and any(k[0][:2] == o[:2] for g in p.funcs for k in an.sum[g].muts):
                bad.append((o, 'the module variable'))
            if o[0] == 'cls' and any(k[0][:2] == o[:2] for g in p.funcs for k in an.sum[g].muts):
                bad.append((o, 'the class attribute'))
            if o[0] == 'p' and o[1] == f.receiver() and f.kind == 'method' and o[2] and o[2][0].startswith('.') and f.cls:
                for c in {f.cls, *an.subclasses.get(f.cls, [])}:
                    if any(o[2][0][1:] in k.inst_attrs or o[2][0][1:] in k.attrs for k in c.mro()) and not config_attr(ctx, c, o[2][0]):
                        bad.append((o, 'the attribute'))
        for o, what in bad:
            ctx.violate(RC, f'{f.short}|{o[1]}{"".join(o[2])}', f.loc(), f'{f.short} is cached but depends on {what} {o[1]}{"".join(o[2])}, which changes')
        if not bad:
            ctx.ok(RC, f'{f.short} reads {len(s.reads)} paths, none of them changing')
        types = {t[0] for t in s.ret[0]} if s.ret else set()
        inner = {t[0] for st, x in (s.ret[3] if s.ret else ()) for t in x[0]} if types & {'tup', 'tuple', 'list'} else set()
        if f.is_gen or types & {'gen', 'iter'} or inner & {'gen', 'iter'}:
            ctx.violate(RI, f.short, f.loc(), f'{f.short} caches a one-shot iterator: the second caller finds it used up')
        else:
            ctx.ok(RI, f.short)
        # random
        rnd = [a for a in params if any(t[0] == 'rand' for t in an.ann(f.mod, f.annot.get(a), f.cls))] if f.annot else []
        src = [e for (n, tg, e) in an.calls_in.get(f, []) if e and (e.startswith('random.') or e.startswith('numpy.random'))]
        if rnd or src:
            ctx.violate(RR, f.short, f.loc(), f'{f.short} is cached although its result is drawn at random ({(rnd + src)[0]})')
        else:
            ctx.ok(RR)
        # keys: classes of self and of class-typed arguments
        keys = []
        if f.kind == 'method' and f.cached and f.cls:
            keys.append((f.params[0], f.cls))
        for a in f.params:
            for t in an.ann(f.mod, f.annot.get(a), f.cls):
                if t[0] == 'inst':
                    keys.append((a, t[1]))
        for a, c0 in keys:
            for c in {c0, *an.subclasses.get(c0, [])}:
                read = {o[2][0][1:] for o in s.reads if o[0] == 'p' and o[1] == a and o[2] and o[2][0].startswith('.')}
                check_eq(ctx, RE, f, a, c, read)
    for c in p.all_classes:
        values(ctx, RE, c)
        hashed(ctx, RH, c)
        for f, n, name, other in getattr(c, 'swapped', ()):
            ctx.violate(RW, f'{f.short}|{name}|{other}', f.loc(n), f'{f.short}: {name} is rebound to a cache of another method, {other}, so what it serves is not what {name} computes')
        for f in c.methods.values():
            if f.name == '__init__':
                continue
            for (o, step, kind, where) in an.sum[f].muts:
                if o[0] == 'p' and o[1] == f.receiver() and not o[2] and step and any(m.inst_cached and m.name == step[1:] for k in c.mro() for m in k.methods.values()):
                    ctx.violate(RW, f'{f.short}|{step}', where, f'{f.short} rebinds the cached method {step}')
    ctx.ok(RW)
    ctx.floor(RC, 15)


def values(ctx, rule, c):
    """Objects that can serve as keys are equal only when everything they were made of is."""
    opts = c.dataclass
    if opts is None or opts.get('eq', True) is False or not (opts.get('frozen') or opts.get('unsafe_hash') or c.find_method('__hash__')) or '__eq__' in c.methods:
        return
    ini = c.find_method('__init__')
    for n, _, d in c.fields():
        kw = {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)} if isinstance(d, ast.Call) else {}
        if kw.get('compare') is False and (n in ini.params if ini is not None else kw.get('init') is not False):
            ctx.violate(rule, f'{c.qual}.{n}', f'{c.mod.rel}:{c.node.lineno}', f'{c.name} is used as a key, but its equality ignores the field {n}, which it is given')
        else:
            ctx.ok(rule, f'{c.name}.{n}')


EDITABLE = {'list', 'dict', 'set', 'ndarray', 'bytearray'}


def hashed(ctx, rule, c):
    """The fields a written-out __hash__ hashes: what construction stores there."""
    h, ini, opts = c.methods.get('__hash__'), c.methods.get('__init__'), c.dataclass
    if ini is None or not ini.params:
        return
    used = set()
    if h is None and opts is not None and opts.get('eq', True) is not False and (opts.get('frozen') or opts.get('unsafe_hash')):
        for n, _, d in c.fields():
            kw = {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)} if isinstance(d, ast.Call) else {}
            if kw.get('hash', kw.get('compare')) is not False:
                used.add(n)
    for n in ast.walk(h.node) if h is not None and h.params else ():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'hash' and len(n.args) == 1:
            for e in n.args[0].elts if isinstance(n.args[0], ast.Tuple) else [n.args[0]]:
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == h.params[0]:
                    used.add(e.attr)
    for n in ast.walk(ini.node):
        if not isinstance(n, ast.Assign):
            continue
        for t in n.targets:
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == ini.params[0] and t.attr in used:
                todo, bad = [n.value], None
                while todo:
                    e = todo.pop()
                    if isinstance(e, ast.IfExp):
                        todo += [e.body, e.orelse]
                    v = ctx.an.vals.get(e)
                    kinds = {x[0] for x in v.types} if v is not None else set()
                    if kinds and kinds <= EDITABLE:
                        bad = sorted(kinds)[0]
                if bad:
                    ctx.violate(rule, f'{c.qual}.{t.attr}', ini.loc(n), f'{c.name} is hashed by {t.attr}, where {ini.short} stores a {bad}: it has no hash')
                else:
                    ctx.ok(rule, f'{c.name}.{t.attr}')


def check_eq(ctx, rule, f, a, c, read):
    """Fields read by the cached function but ignored by the key class's equality or hash."""
    names = {n for n, _, _ in c.fields()}
    custom = c.find_method('__eq__')
    chash = c.find_method('__hash__')
    opts = next((k.dataclass for k in c.mro() if k.dataclass is not None), None)
    if opts is None and custom is None:
        ctx.ok(rule, f'{f.short}: key {a} of {c.name} compared by identity')
        return
    ignored = set()
    if custom is None and opts is not None and opts.get('eq', True) is not False:
        for n, an_, d in c.fields():
            if isinstance(d, ast.Call) and any(k.arg == 'compare' and isinstance(k.value, ast.Constant) and k.value.value is False for k in d.keywords):
                ignored.add(n)
    elif custom is not None:
        used = {n.attr for n in ast.walk(custom.node) if isinstance(n, ast.Attribute)}
        whole = any(isinstance(n, ast.Attribute) and n.attr in ('__dict__',) for n in ast.walk(custom.node)) or \
            any(isinstance(n, ast.Call) and getattr(n.func, 'attr', getattr(n.func, 'id', '')) in ('astuple', 'vars', 'asdict') for n in ast.walk(custom.node))
        calls = any(isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'type')) for n in ast.walk(custom.node))
        if not whole and not calls:
            fields = names or {x for k in c.mro() for x in k.inst_attrs}
            ignored = {n for n in fields if n not in used}
    hit = sorted(read & ignored)
    for n in hit:
        ctx.violate(rule, f'{f.short}|{c.qual}.{n}', c.methods['__eq__'].loc() if '__eq__' in c.methods else f'{c.mod.rel}:{c.node.lineno}',
                    f'{f.short} is cached per {c.name}, whose equality ignores the field {n} that the result depends on')
    if not hit:
        ctx.ok(rule, f'{f.short}: key {a} ({c.name}) compares all of {sorted(read & names)}')
