"""C03: all randomness comes from the caller's generator (entropy sources, generator flow; E1 origins)."""
import ast
from ..flow import local_names
from ..front import AnalysisBroken, walk_local, dotted

EXPLAIN = ('Every call of an entropy source (module-level random functions, numpy.random, the operating system, clocks, uuid, id, hash) is located by name '
           'resolution through import aliases. Every generator object is traced from its creation to its uses with the alias analysis: it must be a '
           'parameter, the stored generator of the object, or created under the test that the caller gave none; and every callee that takes a generator '
           'must be given the caller\'s.')
ASSUME = ['Parameters named rand or rng, or annotated random.Random, are generators.', 'External libraries draw no entropy except through the functions in the source table.']

RANDOM_OK = {'random.Random'}
CLOCK = ('time.', 'datetime.', 'calendar.')
ENTROPY = ('os.urandom', 'os.getrandom', 'os.getpid', 'secrets.', 'uuid.', 'numpy.random', 'tempfile.', 'socket.', 'threading.get_ident', 'builtins.id', 'random.SystemRandom')


def rand_params(ctx, f):
    out = []
    for a in f.params + f.kwonly:
        ann = f.annot.get(a)
        if a in ('rand', 'rng') or ann is not None and any(t == ('rand',) for t in ctx.an.ann(f.mod, ann, f.cls)):
            out.append(a)
    return out


def under_none_test(ctx, f, node, names):
    """Is node evaluated only when one of the names is None?  (name, ok) or None if no such test encloses it."""
    par = {}
    for n in ast.walk(f.node):
        for ch in ast.iter_child_nodes(n):
            par[ch] = n
    n = node
    seen = None
    while n in par:
        up = par[n]
        if isinstance(up, (ast.IfExp, ast.If)) and n is not up.test:
            inbody = n is up.body or isinstance(up.body, list) and n in up.body
            pol = none_test(up.test, names)
            if pol is not None:
                return pol == inbody
        if isinstance(up, ast.BoolOp) and isinstance(up.op, ast.Or) and n in up.values and up.values.index(n) > 0:
            first = dotted(up.values[0])
            if first in names:
                return True
        for b in ('body', 'orelse'):
            blk = getattr(up, b, None)
            if isinstance(blk, list) and n in blk:
                for s in blk[:blk.index(n)]:
                    if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and not s.orelse:
                        pol = none_test(s.test, names)
                        if pol is not None:
                            return not pol
        n = up
    return seen


def none_test(t, names):
    """True if t says 'the generator is None', False if it says it is not, None if it says nothing about it."""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and dotted(t.left) in names:
        if isinstance(t.ops[0], (ast.Is, ast.Eq)):
            return True
        if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
            return False
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = none_test(t.operand, names)
        if r is None and dotted(t.operand) in names:
            return True
        return None if r is None else not r
    if dotted(t) in names:
        return False
    return None


def call_names(ctx, f):
    """(call, external dotted name) for every call in f."""
    for n, tg, e in ctx.an.calls_in.get(f, []):
        if e is None:
            e = ctx.prog.ext_name(f.mod, n.func)
            d = dotted(n.func)
            if e and d and d.split('.')[0] in ctx_locals(f):
                e = None
        yield n, tg, e


def ctx_locals(f):
    from ..flow import local_names
    out, g = set(), f
    while g is not None:
        out |= set(local_names(g)) | set(g.allparams())
        g = g.parent
    return out


def check(ctx):
    an, p = ctx.an, ctx.prog
    RS = ctx.rule('source', 'no call draws from an entropy source other than a generator object')
    RN = ctx.rule('creation', 'a generator is created only where the caller gave none, or from the seed option')
    RF = ctx.rule('forward', 'a callee that takes a generator is given the caller\'s')
    RU = ctx.rule('use', 'random methods are called on the supplied generator')
    RP = ctx.rule('preserve', 'the supplied generator is neither re-seeded nor copied nor rebound')
    may_be_none(ctx, RN)

    bodies = [(f, f.mod, list(call_names(ctx, f))) for f in p.funcs]
    # module-level and class-level code
    for m in p.modules.values():
        calls = []
        todo = list(m.tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    todo.append(d)
                continue
            if isinstance(n, ast.Call):
                calls.append((n, [], p.ext_name(m, n.func)))
            todo.extend(ast.iter_child_nodes(n))
        bodies.append((None, m, calls))

    for f, m, calls in bodies:
        where = (lambda n: f'{m.rel}:{n.lineno}')
        fname = f.short if f else m.name
        for n, tg, e in calls:
            if not e:
                continue
            bad = None
            if e.startswith('random.') and e not in RANDOM_OK and not (tg and not e):
                bad = 'the module-level random state'
            if e.startswith(ENTROPY):
                bad = 'an entropy source outside the caller\'s control'
            if e == 'builtins.hash' and not (f and f.name == '__hash__'):
                bad = 'the process\'s hash seed'
            if e.startswith(CLOCK):
                if e in ('time.sleep',) or m.name == 'search' and f is not None and f.cls is not None and f.name in ('__enter__', '__exit__', '__init__'):
                    pass
                elif m.name == 'search' and e.split('.')[-1] in ('perf_counter', 'monotonic', 'time', 'process_time') and clock_printed_only(ctx, f, n):
                    pass
                else:
                    bad = 'the clock'
            if bad:
                ctx.violate(RS, f'{fname}|{e}', where(n), f'{fname} calls {e}: the result depends on {bad}')
            else:
                ctx.ok(RS)
            if e == 'random.Random':
                creation(ctx, RN, f, m, n, fname)
    for f in p.funcs:
        for n in walk_local(f.node):
            # handed to something else to call, as in sorted(xs, key=id)
            if isinstance(n, ast.keyword) and isinstance(n.value, ast.Name) or isinstance(n, ast.Call):
                for x in ([n.value] if isinstance(n, ast.keyword) else n.args):
                    if isinstance(x, ast.Name) and x.id in ('id', 'hash') and p.ext_name(f.mod, x) in ('builtins.id', 'builtins.hash') and x.id not in local_names(f):
                        ctx.violate(RS, f'{f.short}|builtins.{x.id}', f.loc(x), f'{f.short} hands {x.id} to a call: the result depends on ' + ('where objects lie in memory' if x.id == 'id' else 'the process\'s hash seed'))
        own = rand_params(ctx, f)
        cls_rand = f.kind == 'method' and f.cls is not None and any('rand' in k.inst_attrs or 'rng' in k.inst_attrs for k in f.cls.mro())
        for n, tg, e in call_names(ctx, f):
            # forwarding
            for g in tg:
                gp = rand_params(ctx, g)
                if not gp or g is f and False:
                    continue
                a = gp[0]
                arg = bound_arg(g, n, a)
                if arg == 'unknown':
                    ctx.undecided(RF, f'{f.short} -> {g.short}', 'star arguments')
                    continue
                have = own or cls_rand or captured_rand(ctx, f)
                if arg is None or isinstance(arg, ast.Constant) and arg.value is None:
                    if have or f.mod.name != 'search':
                        ctx.violate(RF, f'{f.short}->{g.short}', f.loc(n), f'{f.short} calls {g.short} without {"the" if have else "a"} generator, so the callee makes its own')
                    else:
                        ctx.violate(RF, f'{f.short}->{g.short}', f.loc(n), f'{f.short} calls {g.short} without a generator seeded by the seed option')
                    continue
                v = an.vals.get(arg)
                if v is None:
                    ctx.undecided(RF, f'{f.short} -> {g.short}', 'argument not analysed')
                    continue
                oo = {o for o in v.orig}
                good = any(o[0] == 'p' and (o[1] in own or o[2] and o[2][-1] in ('.rand', '.rng')) or o[0] == 'cap' for o in oo)
                if good and own and dropped(f, arg, own):
                    ctx.violate(RF, f'{f.short}->{g.short}', f.loc(n), f'{f.short} hands its generator to {g.short} in some cases only ({ast.unparse(arg)}), in the others the callee makes its own')
                    continue
                if f.mod.name == 'search' and not own:
                    good = seeded(ctx, f, arg)
                    if good is None:
                        ctx.undecided(RF, f'{f.short} -> {g.short}', 'generator expression not resolved')
                        continue
                if good:
                    ctx.ok(RF, f'{f.short} hands its generator to {g.short}')
                elif have or f.mod.name == 'search':
                    ctx.violate(RF, f'{f.short}->{g.short}', f.loc(n), f'{f.short} gives {g.short} a generator other than the supplied one ({ast.unparse(arg)})')
                else:
                    ctx.undecided(RF, f'{f.short} -> {g.short}', 'origin unknown')
            # uses
            if isinstance(n.func, ast.Attribute):
                v = an.vals.get(n.func.value)
                if v is not None and ('rand',) in v.types:
                    if n.func.attr in ('seed', 'setstate'):
                        ctx.violate(RP, f'{f.short}|{n.func.attr}', f.loc(n), f'{f.short} re-seeds the generator ({ast.unparse(n)})')
                    elif n.func.attr in ('getstate', '__copy__', '__deepcopy__'):
                        pass
                    else:
                        if any(o[0] in ('p', 'cap') for o in v.orig):
                            ctx.ok(RU, f'{f.short}: {ast.unparse(n)[:60]}')
                        elif any(o[0] in ('glob', 'cls') for o in v.orig):
                            ctx.violate(RU, f'{f.short}|{ast.unparse(n.func)}', f.loc(n), f'{f.short} draws from a shared generator')
                        else:
                            ctx.undecided(RU, f'{f.short}: {ast.unparse(n)[:60]}', 'locally created generator (see creation)')
            if e in ('copy.copy', 'copy.deepcopy') and n.args:
                v = an.vals.get(n.args[0])
                if v is not None and ('rand',) in v.types or dotted(n.args[0]) in own:
                    ctx.violate(RP, f'{f.short}|copy', f.loc(n), f'{f.short} copies the generator, so the caller\'s does not advance')
        # the stored generator of an object comes from its parameter
        if f.name == '__init__' and own:
            for s in walk_local(f.node):
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(t, ast.Attribute) and t.attr in ('rand', 'rng') and s.value is not None:
                            v = an.vals.get(s.value)
                            if v is not None and any(o[0] == 'p' and o[1] in own for o in v.orig):
                                ctx.ok(RF, f'{f.short} stores its generator')
                            elif v is not None:
                                ctx.violate(RF, f'{f.short}|store', f.loc(s), f'{f.short} stores a generator other than the supplied one ({ast.unparse(s.value)})')
    ctx.floor(RF, 6)
    ctx.floor(RU, 5)


def dropped(f, arg, own, depth=0):
    """Whether a generator that was supplied is replaced by None under some condition."""
    if isinstance(arg, ast.IfExp):
        pol = none_test(arg.test, own)
        for inbody, x in ((True, arg.body), (False, arg.orelse)):
            if pol is not None and pol == inbody:
                continue                   # only where none was supplied
            if isinstance(x, ast.Constant) and x.value is None or dropped(f, x, own, depth):
                return True
        return False
    if isinstance(arg, ast.BoolOp) and isinstance(arg.op, ast.And):
        return any(dotted(x) in own for x in arg.values[1:]) and not any(none_test(x, own) is False for x in arg.values[:-1])
    if isinstance(arg, ast.Name) and arg.id not in own and depth < 3:
        defs = [s for s in walk_local(f.node) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == arg.id for t in s.targets)]
        stores = [n for n in walk_local(f.node) if isinstance(n, ast.Name) and n.id == arg.id and isinstance(n.ctx, ast.Store)]
        return len(defs) == len(stores) == 1 and dropped(f, defs[0].value, own, depth + 1)
    return False


def captured_rand(ctx, f):
    g = f.parent
    while g is not None:
        if rand_params(ctx, g):
            return True
        g = g.parent
    return False


def bound_arg(g, call, a):
    ps = list(g.params)
    if g.kind in ('method', 'class') and ps:
        ps = ps[1:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return 'unknown'
    for k in call.keywords:
        if k.arg == a:
            return k.value
    if a in ps and ps.index(a) < len(call.args):
        return call.args[ps.index(a)]
    return None


def creation(ctx, rule, f, m, n, fname):
    where = f'{m.rel}:{n.lineno}'
    own = []
    g = f
    while g is not None:
        own += rand_params(ctx, g)
        g = g.parent
    names = set(own) | {'self.rand', 'self.rng'}
    arg = n.args[0] if n.args else (n.keywords[0].value if n.keywords else None)
    if arg is None or isinstance(arg, ast.Constant) and arg.value is None:
        ok = under_none_test(ctx, f, n, names) if f else False
        if ok:
            ctx.ok(rule, f'{fname}: fresh generator only where {own} is None')
        else:
            ctx.violate(rule, f'{fname}|Random()', where, f'{fname} creates an unseeded generator ' + ('although the caller may have supplied one' if own else 'the caller has no hold on'))
        return
    if m.name == 'search':
        if mentions_seed(f, arg):
            ctx.ok(rule, f'{fname}: {ast.unparse(n)}')
        else:
            ctx.violate(rule, f'{fname}|Random(seed)', where, f'{fname} seeds its generator with {ast.unparse(arg)}, not with the seed option')
        return
    v = ctx.an.vals.get(arg)
    if v is not None and f is not None:
        deps = set(v.deps) | {o for o in v.orig if o[0] != 'alloc'}
        if any(d[0] == 'p' for d in deps):
            if own and not any(d[0] == 'p' and (d[1] in own or d[2] and d[2][0] in ('.rand', '.rng')) for d in deps) and under_none_test(ctx, f, n, names) is not True:
                ctx.violate(rule, f'{fname}|Random(x)', where, f'{fname} replaces the supplied generator by one seeded with {ast.unparse(arg)}')
            else:
                ctx.ok(rule, f'{fname}: {ast.unparse(n)}')
            return
    if f is not None and own and under_none_test(ctx, f, n, names) is True:
        ctx.ok(rule, f'{fname}: fixed seed only where no generator was given')
        return
    ctx.violate(rule, f'{fname}|Random(const)', where, f'{fname} creates a generator with the fixed seed {ast.unparse(arg)}')


def leaves(t, conds=()):
    if t[0] == 'dt':
        yield from leaves(t[2], conds + (t[1],))
        yield from leaves(t[3], conds + (t[1],))
    else:
        yield t, conds


def may_be_none(ctx, rule):
    """The seed handed to Random in the script, value-numbered: on no branch the entropy of the system instead of the option."""
    from ..spec import run
    from ..canon import Canon
    f = ctx.prog.func('search.main')
    r = f and run(ctx, f)
    if not r:
        return
    C = Canon(r)
    for e in r.events:
        if e.kind in ('call', 'new') and e.name == 'random.Random' and len(e.term[2]) == 1:
            for t, conds in leaves(C.t(e.term[2][0][1])):
                if t == ('c', None) and conds and not any(('c', None) in x for x in conds):
                    ctx.violate(rule, 'search.main|Random(None)', e.loc(), 'search.main: the generator is seeded by the system when the seed option is falsy')
                    break
            else:
                ctx.ok(rule, 'search.main: a seed on every branch')


def mentions_seed(f, arg, depth=0):
    if depth > 4:
        return False
    for x in ast.walk(arg):
        if isinstance(x, ast.Attribute) and x.attr == 'seed' and isinstance(x.value, ast.Name):
            return True
        if isinstance(x, ast.Name) and f is not None:
            for s in walk_local(f.node):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets) and mentions_seed(f, s.value, depth + 1):
                    return True
            for s in f.mod.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets) and mentions_seed(None, s.value, depth + 1):
                    return True
    return False


def seeded(ctx, f, arg, depth=0):
    """Does the expression denote a generator made from the seed option?  None: cannot tell."""
    if isinstance(arg, ast.Call):
        if ctx.prog.ext_name(f.mod, arg.func) == 'random.Random':
            return bool(arg.args or arg.keywords) and mentions_seed(f, (arg.args or [arg.keywords[0].value])[0])
        for g in ctx.an.callees.get(arg, []):
            rs = [r.value for r in walk_local(g.node) if isinstance(r, ast.Return) and r.value is not None]
            if rs and depth < 3:
                return seeded(ctx, g, rs[0], depth + 1)
        return None
    if isinstance(arg, ast.Name):
        if arg.id in f.allparams():
            return None
        vals = [s.value for s in walk_local(f.node) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == arg.id for t in s.targets)]
        vals += [s.value for s in f.mod.tree.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == arg.id for t in s.targets)]
        if len(vals) == 1 and depth < 4:
            return seeded(ctx, f, vals[0], depth + 1)
    return None


def clock_printed_only(ctx, f, n):
    """A clock reading in the search script that only ever reaches print()."""
    if f is None:
        return False
    par = {}
    for x in ast.walk(f.node):
        for ch in ast.iter_child_nodes(x):
            par[ch] = x
    names = set()
    todo = [n]
    while todo:
        x = todo.pop()
        while x in par:
            up = par[x]
            if isinstance(up, ast.Call) and x in up.args and dotted(up.func) == 'print':
                break
            if isinstance(up, (ast.BinOp, ast.UnaryOp, ast.JoinedStr, ast.FormattedValue)):
                x = up
                continue
            if isinstance(up, ast.Assign) and all(isinstance(t, ast.Name) for t in up.targets):
                for t in up.targets:
                    if t.id not in names:
                        names.add(t.id)
                        todo += [y for y in walk_local(f.node) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id == t.id]
                break
            if isinstance(up, ast.Expr):
                break
            return False
    return True
