"""C19: exact arithmetic stays exact (sources of inexact numbers and where they may be used, E1 types and call graph)."""
import ast
from ..front import walk_local, dotted

EXPLAIN = ('Every construct that can bring an inexact number into a computation is enumerated: true division (resolved by the inferred operand types, so the exact division of polynomials is not one), float literals, '
           'float conversions, floating-point functions of math and numpy, arrays created without a type (numpy makes those floats), inexact or narrow array types, and numpy scalars handed to the exact value types. '
           'Each must lie in one of the operations that are ratios, averages, weights, rank estimates or drawings, or in a helper that only those call.')
ASSUME = ['math.comb, factorial, gcd, lcm, isqrt, perm and prod are exact on integers; numpy sums and products of integer arrays stay integers.', 'Operands whose type is not known are counted as undecided.']

# where an inexact number is the point
INEXACT = {
    'polymat.rhogap': 'half the width of the degrees', 'polymat.projrank': 'a rank estimate',
    'braidsearch.braids_images_to_dataframe': 'ratio column', 'braidsearch.all_of_length_below_1': 'ratio test', 'braidsearch.Tracker.braid_image_stats': 'ratio column', 'braidsearch.Tracker.stats': 'ratio column',
    'bucketing.Bucket.create': 'weights', 'bucketing.Tracker.stats': 'averages', 'bucketing.Tracker.add_braids_images': 'weights and acceptance probabilities',
    'tl.draw_svg': 'coordinates', 'search.elapsed.__enter__': 'timing', 'search.elapsed.__exit__': 'timing', 'search.main': 'timing',
}
EXACT_MATH = {'comb', 'factorial', 'gcd', 'lcm', 'isqrt', 'perm', 'prod'}
NP_TYPED = {'zeros': 1, 'ones': 1, 'empty': 1, 'eye': None, 'identity': 1, 'full': 2}
NP_FLOAT = {'mean', 'average', 'median', 'std', 'var', 'linspace', 'logspace', 'geomspace', 'sqrt', 'cbrt', 'log', 'log2', 'log10', 'log1p', 'exp', 'exp2', 'expm1', 'divide', 'true_divide', 'reciprocal', 'interp', 'roots', 'polyfit', 'cov',
            'corrcoef', 'percentile', 'quantile', 'float_power', 'hypot', 'sin', 'cos', 'tan', 'arctan2', 'nanmean'}
FLOAT_TYPES = {'float16', 'float32', 'float64', 'float128', 'longdouble', 'half', 'single', 'double', 'floating', 'complex64', 'complex128', 'inexact'}
NARROW = {'int8', 'int16', 'uint8', 'uint16', 'short', 'ushort', 'byte', 'ubyte', 'intc', 'int32', 'uint32'}
EXACT_TYPES = {'LPoly', 'Poly', 'Matrix', 'GNF', 'DGNF', 'Permutation', 'NPar', 'TLDiag', 'TLExtDiag', 'TLMor'}
# modules whose numbers are Python integers of any size
ALGEBRA = {'poly', 'lpoly', 'matrix', 'tl', 'permutations', 'noncrossing', 'braid'}
TYPE_CHOICE = ('dtype', 'polymat_dtype')


def owner(f):
    while f.parent is not None:
        f = f.parent
    return f


def callers(ctx):
    up = {}
    for f in ctx.prog.funcs:
        for n, tg, e in ctx.an.calls_in.get(f, []):
            for g in tg or ():
                up.setdefault(owner(g), set()).add(owner(f))
    return up


def allowed(f, up, test, seen=()):
    f = owner(f)
    if test(f):
        return True
    if f in seen:
        return True
    us = up.get(f, set()) - {f}
    return bool(us) and all(allowed(u, up, test, seen + (f,)) for u in us)


def ext_name(an, n):
    v = an.vals.get(n)
    names = {t[1] for t in (v.types if v is not None else ()) if t[0] == 'ext'}
    if len(names) == 1:
        return next(iter(names))
    return None


def has_div(ctx, t):
    return t[0] == 'inst' and any('__truediv__' in k.methods or '__rtruediv__' in k.methods for k in t[1].mro())


def sources(ctx, f):
    """(node, what) for each inexact construct of a function; (node, None) where the types do not tell."""
    an = ctx.an
    ann = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.arg) and n.annotation is not None:
            ann |= set(ast.walk(n.annotation))
        elif isinstance(n, ast.AnnAssign):
            ann |= set(ast.walk(n.annotation))
        elif isinstance(n, ast.FunctionDef) and n.returns is not None:
            ann |= set(ast.walk(n.returns))
        elif isinstance(n, ast.Call) and dotted(n.func) in ('isinstance', 'issubclass'):
            ann |= set(ast.walk(n))
    for n in walk_local(f.node):
        if n in ann:
            continue
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and isinstance(n.op, ast.Div):
            l, r = (n.left, n.right) if isinstance(n, ast.BinOp) else (n.target, n.value)
            ts = [an.vals.get(l), an.vals.get(r)]
            ts = [t.types if t is not None else frozenset() for t in ts]
            if any(has_div(ctx, t) for x in ts for t in x):
                yield n, 'exact'
            elif any(x and all(t[0] in ('int', 'bool') for t in x) for x in ts):
                yield n, f'true division `{ast.unparse(n)[:60]}`'
            else:
                yield n, None
        elif isinstance(n, ast.Constant) and isinstance(n.value, (float, complex)):
            yield n, f'the floating-point constant {n.value}'
        elif isinstance(n, ast.Constant) and n.value in FLOAT_TYPES:
            yield n, f'the inexact type {n.value}'
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.UnaryOp) and isinstance(n.right.op, ast.USub) and isinstance(n.right.operand, ast.Constant):
            v = an.vals.get(n.left)
            if v is not None and v.types and all(t[0] in ('int', 'bool') for t in v.types):
                yield n, f'negative power `{ast.unparse(n)[:60]}`'
        elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            e = ext_name(an, n)
            if e is None:
                continue
            mod, _, last = e.rpartition('.')
            if e in ('builtins.float', 'builtins.complex'):
                yield n, f'a conversion to {last}'
            elif mod in ('math', 'cmath') and last not in EXACT_MATH and last not in ('inf',):
                yield n, f'the floating-point function {e}'
            elif mod == 'numpy' and last in FLOAT_TYPES:
                yield n, f'the inexact type {e}'
            elif mod == 'numpy' and last in NP_FLOAT or mod.startswith(('numpy.linalg', 'numpy.fft', 'numpy.polynomial', 'scipy', 'statistics')):
                yield n, f'the floating-point function {e}'
        if isinstance(n, ast.Call):
            e = ext_name(an, n.func)
            if e and e.startswith('numpy.') and e.count('.') == 1 and e[6:] in NP_TYPED:
                pos = NP_TYPED[e[6:]]
                typed = any(k.arg in ('dtype', None) for k in n.keywords) or pos is not None and len(n.args) > pos
                if e == 'numpy.full':
                    typed = True      # takes the type of the value it is filled with
                if not typed:
                    yield n, f'`{ast.unparse(n)[:60]}`, whose entries are floats for want of a type,'
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ('mean', 'std', 'var') and not n.args:
                yield n, f'`{ast.unparse(n)[:60]}`'


def check(ctx):
    R = ctx.rule('inexact', 'inexact numbers only in ratios, averages, weights, rank estimates, drawings and timings')
    N = ctx.rule('narrow', 'narrow integer types only where a representation chooses its type')
    S = ctx.rule('scalars', 'the exact value types are not built from numpy arrays or their elements')
    an, p = ctx.an, ctx.prog
    up = callers(ctx)
    real = [f for f in p.funcs if owner(f).name not in p.refs]
    for f in real:
        free = allowed(f, up, lambda g: g.short in INEXACT)
        for n, what in sources(ctx, f):
            key = f'{owner(f).short}|{ast.unparse(n)[:60]}'
            if what == 'exact':
                ctx.ok(R, f'{f.short}: `{ast.unparse(n)[:50]}` divides polynomials')
            elif free:
                ctx.ok(R, f'{f.short}: {what or ast.unparse(n)[:50]}')
            elif what is None:
                ctx.undecided(R, f'{f.short}: `{ast.unparse(n)[:60]}`', 'types of the operands not known')
            else:
                ctx.violate(R, key, f.loc(n), f'{f.short}: {what} brings floating point into an exact computation')
        ctx.ok(R, f'{f.short}: scanned')
        if f.mod.name.split('.')[-1] in ALGEBRA:
            for n in walk_local(f.node):
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                    e = ext_name(an, n)
                    if e and e.startswith('numpy.') and e.count('.') == 1 and e[6:] not in ('integer', 'ndarray', 'number'):
                        ctx.violate(N, f'{owner(f).short}|{e}', f.loc(n), f'{f.short}: {e} computes in fixed-width numbers what is computed in integers of any size')
        for n in walk_local(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                e = ext_name(an, n)
                if e and e.startswith('numpy.') and e[6:] in NARROW:
                    if e[6:] in ('int32', 'intc') and allowed(f, up, lambda g: g.name in TYPE_CHOICE):
                        ctx.ok(N, f'{f.short}: {e} is the type the representation chooses')
                    else:
                        ctx.violate(N, f'{owner(f).short}|{e}', f.loc(n), f'{f.short}: entries are squeezed into {e}')
            elif isinstance(n, ast.Constant) and n.value in NARROW - {'single', 'byte', 'short'}:
                ctx.violate(N, f'{owner(f).short}|{n.value}', f.loc(n), f'{f.short}: entries are squeezed into {n.value}')
        for n, tg, e in an.calls_in.get(f, []):
            v = an.vals.get(n.func)
            cls = {t[1] for t in (v.types if v is not None else ()) if t[0] == 'class'}
            if not cls or not all(c.name in EXACT_TYPES for c in cls):
                continue
            bad = False
            for a in list(n.args) + [k.value for k in n.keywords]:
                av = an.vals.get(a.value if isinstance(a, ast.Starred) else a)
                if av is not None and ('ndarray',) in av.types and all(t == ('ndarray',) for t in av.types):
                    bad = True
                    ctx.violate(S, f'{owner(f).short}|{ast.unparse(n)[:60]}', f.loc(n), f'{f.short}: `{ast.unparse(n)[:60]}` builds an exact value from fixed-width numpy numbers')
            if not bad:
                ctx.ok(S, f'{f.short}: `{ast.unparse(n)[:50]}`')
    ctx.floor(R, 300)
    ctx.floor(S, 40)
