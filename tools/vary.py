"""Development tool: how the canonical forms react to small changes of meaning and to changes of shape.

For every function of the chosen modules, variants are made on the syntax tree: 'mutants' change what is computed, 'shapes'
keep it.  Each variant is compared with the original.  Usage: vary.py [mutants|shapes] [module ...] [-v class]
"""
import ast, copy, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import front, flow, spec, canon
from sa.rules.c01 import api

OBS = ('ret', 'yields', 'effects', 'refuse')


def clone(fn):
    return copy.deepcopy(fn)


def nodes(fn):
    """All nodes, nested functions included, in a fixed order."""
    return list(ast.walk(fn))


def mutants(fn):
    base = nodes(fn)
    locs = sorted({n.id for n in base if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for n in base if isinstance(n, ast.arguments) for a in n.args})
    rng = random.Random(fn.name)

    def at(i, edit):
        f = clone(fn)
        ns = nodes(f)
        if edit(ns[i]) is False:
            return None
        return ast.fix_missing_locations(f)
    SW = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
    BO = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.MatMult: ast.Mult}
    ann = set()
    for n in base:
        for fld in ('annotation', 'returns'):
            x = getattr(n, fld, None)
            if isinstance(x, ast.AST):
                ann |= set(ast.walk(x))
        if isinstance(n, (ast.Assert, ast.Raise)):
            m = n.msg if isinstance(n, ast.Assert) else n.exc
            if m is not None:
                ann |= set(ast.walk(m))
        if isinstance(n, ast.JoinedStr):
            ann |= set(ast.walk(n))
    for i, n in enumerate(base):
        if n in ann:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SW:
            yield 'cmp', at(i, lambda x: x.ops.__setitem__(0, SW[type(x.ops[0])]()))
        if isinstance(n, ast.BoolOp):
            yield 'bool', at(i, lambda x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            yield 'boolcut', at(i, lambda x: x.values.pop() if len(x.values) > 2 else x.values.__setitem__(1, x.values[0]))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            yield 'const+', at(i, lambda x: setattr(x, 'value', x.value + 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield 'flip', at(i, lambda x: setattr(x, 'value', not x.value))
        if isinstance(n, ast.BinOp) and type(n.op) in BO:
            yield 'op', at(i, lambda x: setattr(x, 'op', BO[type(x.op)]()))
            if not isinstance(n.op, (ast.Add, ast.Mult)) and ast.dump(n.left) != ast.dump(n.right):
                yield 'swapop', at(i, lambda x: x.__dict__.update(left=x.right, right=x.left))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield 'unnot', at(i, lambda x: x.__dict__.update(op=ast.UAdd()) if False else setattr(x, 'operand', ast.UnaryOp(ast.Not(), x.operand)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield 'unneg', at(i, lambda x: setattr(x, 'op', ast.UAdd()))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and ast.dump(n.args[0]) != ast.dump(n.args[1]):
                yield 'swapargs', at(i, lambda x: x.args.__setitem__(slice(0, 2), [x.args[1], x.args[0]]))
            for j in range(len(n.keywords)):
                if n.keywords[j].arg not in (None, 'dtype', 'flush', 'end', 'help', 'file'):
                    yield 'dropkw', at(i, lambda x, j=j: x.keywords.pop(j))
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                yield 'slice', at(i, lambda x: setattr(x, 'lower', None))
            if n.upper is not None:
                yield 'slice', at(i, lambda x: setattr(x, 'upper', None))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in locs and len(locs) > 1:
            o = rng.choice([x for x in locs if x != n.id])
            yield 'name', at(i, lambda x: setattr(x, 'id', o))
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and not isinstance(n, (ast.ClassDef, ast.Module)):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Assert, ast.If, ast.Raise, ast.Delete, ast.Break, ast.Continue)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) \
                            and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', '') == 'print'):
                        if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Name, ast.Tuple)):
                            continue
                        yield 'drop', at(i, lambda x, j=j, fld=fld: getattr(x, fld).__setitem__(j, ast.Pass()))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Constant)):
            yield 'negif', at(i, lambda x: setattr(x, 'test', ast.UnaryOp(ast.Not(), x.test)))
        if isinstance(n, ast.comprehension) and n.ifs:
            yield 'dropif', at(i, lambda x: x.ifs.pop())


PURE = (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.Compare, ast.Subscript, ast.Tuple, ast.UnaryOp, ast.Slice, ast.Call)


def shapes(fn):
    """Variants of the same meaning."""
    # rename locals
    stores = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    params = {a.arg for n in ast.walk(fn) if isinstance(n, ast.arguments) for a in n.posonlyargs + n.args + n.kwonlyargs + [y for y in (n.vararg, n.kwarg) if y]}
    stores -= glob | params
    if stores:
        f = clone(fn)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in stores:
                n.id += '_r'
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name in stores:
                n.name += '_r'
        yield 'rename', f
    base = nodes(fn)
    for i, n in enumerate(base):
        # invert if/else
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            f = clone(fn)
            x = nodes(f)[i]
            x.test, x.body, x.orelse = inv(x.test), x.orelse, x.body
            yield 'invert', f
        if isinstance(n, ast.IfExp):
            f = clone(fn)
            x = nodes(f)[i]
            x.test, x.body, x.orelse = inv(x.test), x.orelse, x.body
            yield 'invertexp', f
        # early return into else
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or isinstance(n, (ast.ClassDef,)):
                continue
            for j, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and j + 1 < len(b):
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    bb[j].orelse = bb[j + 1:]
                    del bb[j + 1:]
                    yield 'else', f
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    y = bb[j]
                    y.test, y.body, y.orelse = inv(y.test), bb[j + 1:], y.body
                    del bb[j + 1:]
                    yield 'elseinv', f
                if isinstance(s, ast.If) and not s.orelse and not isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and isinstance(n, (ast.For,)) and j + 1 == len(b) and fld == 'body':
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    y = bb[j]
                    bb[j:] = [ast.If(inv(y.test), [ast.Continue()], [])] + y.body
                    yield 'continue', f
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    bb[j:j + 1] = [ast.Assign([ast.Name('result_r', ast.Store())], bb[j].value), ast.Return(ast.Name('result_r', ast.Load()))]
                    yield 'retvar', f
                if isinstance(s, ast.Assert):
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    bb[j] = ast.If(inv(bb[j].test), [ast.Raise(ast.Call(ast.Name('AssertionError', ast.Load()), [], []), None)], [])
                    yield 'assertif', f
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    y = bb[j]
                    if not isinstance(y.value, (ast.List, ast.ListComp, ast.Tuple)):
                        bb[j] = ast.Assign([y.target], ast.BinOp(ast.Name(y.target.id, ast.Load()), y.op, y.value))
                        yield 'aug', f
                # statement value into a helper
                if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and s.value is not None and isinstance(s.value, (ast.BinOp, ast.Call, ast.Compare, ast.IfExp, ast.ListComp)) and \
                        not any(isinstance(y, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.Starred)) for y in ast.walk(s.value)) and \
                        not any(isinstance(y, ast.Call) and getattr(y.func, 'id', '') == 'super' for y in ast.walk(s.value)):
                    free = sorted({y.id for y in ast.walk(s.value) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and (y.id in params or y.id in stores)} -
                                  {y.id for y in ast.walk(s.value) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)})
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    y = bb[j]
                    h = ast.FunctionDef('helper_r', ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []), [ast.Return(y.value)], [], None, None)
                    h.type_params = []
                    y.value = ast.Call(ast.Name('helper_r', ast.Load()), [ast.Name(a, ast.Load()) for a in free], [])
                    f.body.insert(0, h)
                    yield 'helper', f
                # loop over a list written by index
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and isinstance(s.target, ast.Name) and not s.orelse:
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    y = bb[j]
                    y.body.insert(0, ast.Assign([y.target], ast.Subscript(ast.Name(y.iter.id, ast.Load()), ast.Name('k_r', ast.Load()), ast.Load())))
                    y.target = ast.Name('k_r', ast.Store())
                    y.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(y.iter.id, ast.Load())], [])], [])
                    yield 'index', f
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') == 'range' and isinstance(s.target, ast.Name) and not s.orelse and len(s.iter.args) <= 2 and not any(isinstance(y, ast.Continue) for y in ast.walk(s)):
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    y = bb[j]
                    a = y.iter.args
                    lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
                    bb[j:j + 1] = [ast.Assign([ast.Name(y.target.id, ast.Store())], lo),
                                   ast.While(ast.Compare(ast.Name(y.target.id, ast.Load()), [ast.Lt()], [hi]), y.body + [ast.AugAssign(ast.Name(y.target.id, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                    yield 'while', f
                # list comprehension into a loop
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp):
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    y = bb[j]
                    cmp = y.value
                    inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name('out_r', ast.Load()), 'append', ast.Load()), [cmp.elt], []))]
                    for g in reversed(cmp.generators):
                        for t in reversed(g.ifs):
                            inner = [ast.If(t, inner, [])]
                        inner = [ast.For(g.target, g.iter, inner, [], None)]
                    y.value = ast.Name('out_r', ast.Load())
                    bb[j:j] = [ast.Assign([ast.Name('out_r', ast.Store())], ast.List([], ast.Load()))] + inner
                    yield 'uncomp', f
                # swap independent assignments
                if j + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(b[j + 1], ast.Assign) and indep(s, b[j + 1]):
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    bb[j], bb[j + 1] = bb[j + 1], bb[j]
                    yield 'reorder', f
                if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    f = clone(fn)
                    bb = getattr(nodes(f)[i], fld)
                    y = bb[j]
                    vs = y.test.values
                    y.test = vs[0]
                    y.body = [ast.If(vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), y.body, [])]
                    yield 'nest', f
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq):
            f = clone(fn)
            x = nodes(f)[i]
            x.left, x.comparators[0] = x.comparators[0], x.left
            x.ops[0] = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}[type(x.ops[0])]()
            yield 'flip', f
        # subexpression into a local
        for fld in ('body',):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or isinstance(n, ast.ClassDef):
                continue
            for j, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and getattr(s, 'value', None) is not None:
                    for y in ast.walk(s.value):
                        if isinstance(y, ast.Call) and isinstance(s.value, ast.Call) and y is s.value:
                            for q, a in enumerate(y.args):
                                if isinstance(a, (ast.BinOp, ast.Call, ast.Subscript)) and not any(isinstance(z, (ast.Yield, ast.Starred)) for z in ast.walk(a)):
                                    f = clone(fn)
                                    bb = getattr(nodes(f)[i], fld)
                                    z = bb[j]
                                    bb.insert(j, ast.Assign([ast.Name('tmp_r', ast.Store())], z.value.args[q]))
                                    z.value.args[q] = ast.Name('tmp_r', ast.Load())
                                    yield 'extract', f
                                    break


def inv(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def indep(a, b):
    if any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for x in ast.walk(a.targets[0])) or any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in ast.walk(b.targets[0])):
        return False
    pure = ('len', 'max', 'min', 'range', 'sum', 'tuple', 'list')
    for s in (a, b):
        if any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') not in pure for x in ast.walk(s)):
            return False
    wa = {x.id for x in ast.walk(a) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    wb = {x.id for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    ra = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
    rb = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}
    return not (wa & rb or wb & ra)


def run(kind, mod, verbose=(), limit=200):
    prog0 = front.Program()
    m = prog0.modules[mod]
    extra, k = [], 0
    for f in prog0.funcs:
        if f.mod is not m or f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        path = tuple(f.cls.qual[len(mod) + 1:].split('.')) if f.cls is not None else ()
        for op, v in (mutants if kind == 'mutants' else shapes)(f.node):
            if v is None:
                continue
            k += 1
            v = ast.parse(ast.unparse(ast.fix_missing_locations(v))).body[0]
            if ast.dump(v) == ast.dump(ast.parse(ast.unparse(f.node)).body[0]):
                continue
            src = ast.unparse(v)
            v.name = f'ref{k}__{f.node.name}'
            extra.append((mod, path, v, {'mod': mod, 'cls': path, 'name': f.node.name, 'obs': OBS, 'op': op, 'ref': v.name, 'src': src}))
    if len(extra) > limit * 4:
        random.Random(1).shuffle(extra)
    out = {}
    for q in range(0, len(extra), limit):
        part = extra[q:q + limit]
        import io
        prog = front.Program(extra=part)
        an = flow.Analyzer(prog)
        an.twins = spec.twins(prog)
        an.run(rounds=6)

        class X:
            pass
        ctx = X()
        ctx.prog, ctx.an = prog, an
        forms = {}
        for f in prog.funcs:
            if f.name not in prog.refs or f.parent is not None:
                continue
            meta = prog.refs[f.name]
            g = spec.real(prog, meta)
            if g not in forms:
                forms[g] = spec.form(ctx, g, meta)
            try:
                R = spec.form(ctx, f, meta, g)
            except Exception as e:
                print('ERR', g.short, meta['op'], repr(e)[:100])
                continue
            if R is None or forms[g] is None:
                cls = 'none'
            else:
                d = canon.judge([(R[o], forms[g][o]) for o in OBS])[0]
                cls = 'eq' if d == 0 else 'near' if d <= spec.LIMIT else 'mid' if d <= 6 else 'far'
            out.setdefault(cls, []).append((g.short, meta['op'], meta['src'], d if R is not None else None))
            if cls in verbose:
                orig = ast.unparse(g.node).split('\n')
                new = meta['src'].split('\n')
                import difflib
                df = [x for x in difflib.unified_diff(orig, new, lineterm='', n=0) if not x.startswith(('---', '+++', '@@'))]
                print(cls, d, g.short, meta['op'])
                for x in df[:6]:
                    print('     ', x[:150])
                o = next((o for o in OBS if R[o] != forms[g][o]), None)
                if o:
                    print('      ', o, canon.explain(R[o], forms[g][o])[:300])
    return out


if __name__ == '__main__':
    kind = sys.argv[1]
    mods = [a for a in sys.argv[2:] if not a.startswith('-')]
    vb = tuple(a[1:] for a in sys.argv[2:] if a.startswith('-'))
    for mod in mods:
        o = run(kind, mod, vb)
        per = {}
        for cls, xs in o.items():
            for x in xs:
                per.setdefault(x[1], {}).setdefault(cls, 0)
                per[x[1]][cls] += 1
        print(mod, {k: len(v) for k, v in o.items()})
        print('   ', per)
