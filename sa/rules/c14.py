"""C14: the degree statistics of an image agree with one another (normal forms of the statistics, E2)."""
from fractions import Fraction
from .. import vn
from ..vn import show, c, arg, items, poly, subterms
from ..spec import run, module_funcs, compare
from ..front import AnalysisBroken

EXPLAIN = ('Value numbering of every statistic of polynomial matrices, then an abstract evaluation of the resulting term to a linear form over the width of the degree '
           'axis, the first nonzero index from the left and the first nonzero index from the right, with the set of axes each reduction removes tracked. The linear forms '
           '(and the value for the zero matrix) are compared with the identities of the property. Tables of statistics are checked entry by entry: name against the '
           'function whose value is stored under it, column count and order against the row tuples.')
ASSUME = ['numpy reductions, argmax, where and slicing behave as documented.', 'A statistic written in a form outside the linear fragment is counted as undecided.']

SPECS = '''
peyl.polymat
  degmax ret
  valmin ret
  rhogap ret
  projlen ret
  efflen ret
  nz_terms ret
  projrank ret
  proj_starts_ends ret
'''

W, F, R, ONE = 'W', 'F', 'R', 1


class Bad(Exception):
    pass


class Img:
    def __init__(self, axes, rev=False, kind='num'):
        self.axes, self.rev, self.kind = tuple(axes), rev, kind     # kind: num, nz (mask of nonzeros), z (mask of zeros), count

    def copy(self, **k):
        x = Img(self.axes, self.rev, self.kind)
        x.__dict__.update(k)
        return x


class Lin:
    """Value for a nonzero matrix and value for the zero matrix (None when not specified)."""

    def __init__(self, d, zero=None):
        self.d = {k: v for k, v in d.items() if v}
        self.zero = zero

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Lin(d, self.zero + o.zero if self.zero is not None and o.zero is not None else None)

    def scale(self, s):
        return Lin({k: v * s for k, v in self.d.items()}, self.zero * s if self.zero is not None else None)

    def __str__(self):
        n = {W: 'width', F: 'first nonzero degree', R: 'first nonzero from the right', ONE: ''}
        return ' '.join(f'{"+" if v > 0 else "-"} {abs(v) if abs(v) != 1 or k == ONE else ""}{n.get(k, k)}' for k, v in sorted(self.d.items(), key=lambda x: str(x[0]))) or '0'


def const_axes(t):
    if t is None or t == vn.NONE:
        return None
    if vn.isint(t):
        return [t[1]]
    it = items(t)
    if it is not None and all(vn.isint(x) for x in it):
        return [x[1] for x in it]
    return 'unknown'


def reduce_axes(img, t, what):
    ax = const_axes(t)
    if ax == 'unknown':
        return None
    if ax is None:
        raise Bad(f'{what} reduces over every axis, the batch axes included')
    if any(a >= 0 for a in ax):
        raise Bad(f'{what} counts axis {max(ax)} from the front, so it hits a different axis in a batch')
    if any(-a > len(img.axes) for a in ax):
        raise Bad(f'{what} reduces over axis {min(ax)}, a batch axis')
    gone = {len(img.axes) + a for a in ax}
    return [x for i, x in enumerate(img.axes) if i not in gone], [img.axes[i] for i in sorted(gone)]


def interp(t, params):
    """Abstract value of a term, or None."""
    k = t[0]
    if k == 'p' and t[1] in params:
        return Img('IJD')
    if k == 'c':
        if isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return Lin({ONE: Fraction(t[1])}, Fraction(t[1]))
        return None
    if k == 'poly':
        out = Lin({}, Fraction(0))
        for m, co in t[1]:
            if not m:
                x = Lin({ONE: Fraction(1)}, Fraction(1))
            elif len(m) == 1:
                x = interp(m[0], params)
                if isinstance(x, Img) and x.kind == 'count':
                    return None
            else:
                return None
            if not isinstance(x, Lin):
                return None
            out = out + x.scale(Fraction(co))
        return out
    if k == 'op' and t[1] in ('/', '//') and vn.isint(t[3]) and t[3][1]:
        x = interp(t[2], params)
        if isinstance(x, Lin):
            if t[1] == '//' and any(v % t[3][1] for v in x.d.values()):
                raise Bad(f'the quotient {show(t)[:80]} is rounded')
            return x.scale(Fraction(1, t[3][1]))
        return None
    if k == 'cmp' and t[3] == c(0) or k == 'cmp' and t[2] == c(0):
        x = interp(t[2] if t[3] == c(0) else t[3], params)
        if isinstance(x, Img):
            if x.kind == 'num' and t[1] in ('==', '!='):
                return x.copy(kind='z' if t[1] == '==' else 'nz')
            if x.kind == 'count' and t[1] in ('==', '!='):
                return x.copy(kind='z' if t[1] == '==' else 'nz')
            if x.kind == 'count' and t[1] == '<' and t[2] == c(0):
                return x.copy(kind='nz')
        return None
    if k == 'not' or k == 'op' and t[1] == 'inv':
        x = interp(t[1] if k == 'not' else t[2], params)
        if isinstance(x, Img) and x.kind in ('z', 'nz'):
            return x.copy(kind='nz' if x.kind == 'z' else 'z')
        return None
    if k == 'slice_of' or k == 'idx':
        if k == 'idx' and t[1][0] == 'attr' and t[1][2] == 'shape':
            x = interp(t[1][1], params)
            if isinstance(x, Img) and vn.isint(t[2]):
                i = t[2][1]
                if -len(x.axes) <= i < 0:
                    a = x.axes[len(x.axes) + i]
                    return Lin({W if a == 'D' else f'size of axis {a}': Fraction(1)})
                return Lin({f'size of axis {i}': Fraction(1)})
            return None
        x = interp(t[1], params)
        if not isinstance(x, Img) or k == 'slice_of':
            return None
        ix = items(t[2]) or (t[2],)
        full = ('slice', vn.NONE, vn.NONE, vn.NONE)
        rev = [('slice', vn.NONE, vn.NONE, c(-1)), ('slice', c(-1), vn.NONE, c(-1))]
        ell = [i for i, a in enumerate(ix) if a == c(Ellipsis)]
        if all(a == full or a in rev or a == c(Ellipsis) for a in ix):
            if not ell and any(a in rev for a in ix):
                raise Bad(f'{show(t)[:80]} reverses an axis counted from the front, a batch axis when there is one')
            if ell and ell[0] == 0:
                tail = ix[1:]
                if len(tail) > len(x.axes):
                    raise Bad(f'{show(t)[:80]} reverses a batch axis')
                r = x
                for j, a in enumerate(tail):
                    ax = x.axes[len(x.axes) - len(tail) + j]
                    if a in rev:
                        if ax == 'D':
                            r = r.copy(rev=not r.rev)
                        # reversing a matrix axis changes no statistic
                return r
        return None
    if k == 'call' and t[1].startswith('numpy.'):
        fn = t[1][6:]
        x = interp(t[2][0][1], params) if t[2] else None
        if fn in ('any', 'all', 'count_nonzero', 'sum', 'max') and isinstance(x, Img):
            r = reduce_axes(x, arg(t, 'axis', 1), f'{fn}')
            if r is None:
                return None
            left, gone = r
            if x.kind == 'count':
                if fn == 'sum':
                    return x.copy(axes=tuple(left), gone=tuple(sorted(getattr(x, 'gone', ()) + tuple(gone))))
                if fn == 'any':
                    return Img(left, x.rev, 'nz')
                return None
            if fn == 'count_nonzero':
                y = Img(left, x.rev, 'count')
                y.gone = tuple(sorted(gone))
                return y if x.kind in ('num', 'nz') else None
            if fn == 'sum' and x.kind == 'nz':
                y = Img(left, x.rev, 'count')
                y.gone = tuple(sorted(gone))
                return y
            if fn == 'any' and x.kind in ('num', 'nz') or fn == 'max' and x.kind == 'nz':
                return Img(left, x.rev, 'nz')
            if fn == 'all' and x.kind == 'z':
                return Img(left, x.rev, 'z')
            if fn == 'all' and x.kind in ('num', 'nz') or fn == 'any' and x.kind == 'z':
                return Img(left, x.rev, fn)       # a different mask: "every entry nonzero" / "some entry zero"
            return None
        if fn in ('argmax', 'argmin') and isinstance(x, Img):
            ax = const_axes(arg(t, 'axis', 1))
            if ax == 'unknown':
                return None
            if ax is None:
                raise Bad(f'{fn} without an axis searches all axes at once')
            if ax[0] >= 0:
                raise Bad(f'{fn} counts axis {ax[0]} from the front, a batch axis when there is one')
            if -ax[0] > len(x.axes):
                raise Bad(f'{fn} searches a batch axis')
            if x.axes[len(x.axes) + ax[0]] != 'D':
                raise Bad(f'{fn} searches along a matrix axis, not along the degrees')
            if x.axes != ('D',):
                return None
            good = x.kind == ('nz' if fn == 'argmax' else 'z')
            if not good and x.kind not in ('nz', 'z', 'all', 'any'):
                return None
            return Lin({(R if x.rev else F) if good else f'{fn} over a mask of {x.kind}': Fraction(1)}, Fraction(0))
        if fn == 'where' and len(t[2]) == 3:
            cd = interp(t[2][0][1], params)
            a, b = interp(t[2][1][1], params), interp(t[2][2][1], params)
            return choose(cd, a, b)
        if fn == 'flip' and isinstance(x, Img):
            ax = const_axes(arg(t, 'axis', 1))
            if ax == [-1] and x.axes[-1] == 'D':
                return x.copy(rev=not x.rev)
            if ax is None or ax != 'unknown' and any(a >= 0 for a in ax):
                raise Bad('flip reverses batch axes too')
            return None
        return None
    if k == 'phi':
        return choose(interp(t[1], params), interp(t[2], params), interp(t[3], params))
    return None


def choose(cd, a, b):
    if not isinstance(a, Lin) or not isinstance(b, Lin) or not isinstance(cd, Img) or cd.kind not in ('nz', 'z'):
        return None
    if cd.axes:
        raise Bad('the test for the zero matrix leaves the axes ' + ', '.join(cd.axes) + ' unreduced')
    if cd.kind == 'z':
        a, b = b, a
    # a for nonzero, b for zero
    if b.zero is not None:
        z = b.zero
    else:
        z = None
    return Lin(a.d, z)


def half(n):
    return Fraction(n, 2)


SPEC = {
    'polymat.degmax': ({W: 1, ONE: -1, R: -1}, None, 'width - 1 - first nonzero from the right'),
    'polymat.valmin': ({F: 1}, None, 'first nonzero degree'),
    'polymat.efflen': ({W: 1, ONE: -1, R: -1, F: -1}, 0, 'degmax - valmin, 0 for the zero matrix'),
    'polymat.projlen': ({W: 1, R: -1, F: -1}, 0, 'degmax - valmin + 1, 0 for the zero matrix'),
    'polymat.rhogap': ({W: half(1), ONE: half(-1), R: half(-1), F: half(-1)}, None, '(degmax - valmin) / 2'),
}


def single(r):
    """The merged value of all returns, None when there is none."""
    if r is None or r.falls is not None or not r.rets:
        return None
    if len(r.rets) == 1:
        return r.rets[0][1]
    v = r.rets[-1][1]
    for cx, t, _ in reversed(r.rets[:-1]):
        if any(fr[0] != 'if' for fr in cx):
            return None
        cd = vn.conj([fr[1] for fr in cx if fr[0] == 'if'])
        v = ('phi', cd, t, v)
    return v


def judge(ctx, rule, key, loc, name, t, spec, params):
    d, zero, text = spec
    try:
        x = interp(t, params)
    except Bad as e:
        ctx.violate(rule, key, loc, f'{name}: {e}')
        return
    if not isinstance(x, Lin):
        ctx.undecided(rule, name, f'not in the linear fragment: {show(t)[:120]}')
        return
    if x.d != {k: Fraction(v) for k, v in d.items()}:
        ctx.violate(rule, key, loc, f'{name} is {x}, expected {text}')
    elif zero is not None and x.zero is not None and x.zero != zero:
        ctx.violate(rule, key, loc, f'{name} of the zero matrix is {x.zero}, expected {zero}')
    elif zero is not None and x.zero is None:
        ctx.violate(rule, key, loc, f'{name} of the zero matrix is not {zero}: it is computed like that of a nonzero matrix')
    else:
        ctx.ok(rule, f'{name} = {x}' + (f', {x.zero} for the zero matrix' if zero is not None else ''))


NAMES = {'nz_terms', 'degmax', 'valmin', 'rhogap', 'projlen', 'efflen'}


def statof(t):
    """Name of the statistic a term is a direct value of: polymat.X(images) or column.apply(polymat.X)."""
    if t[0] == 'call' and t[1].startswith('polymat.') and t[1][8:] in NAMES | {'projrank'}:
        return t[1][8:]
    if t[0] == 'call' and t[1] in ('.apply', '.map') and len(t[2]) == 2 and t[2][1][1][0] == 'func' and t[2][1][1][1].startswith('polymat.'):
        return t[2][1][1][1][8:]
    if t[0] == 'comp' and len(t[2]) == 1 and not t[4]:
        return statof(t[3])
    return None


def has_length(t):
    for x in subterms(t):
        if x[0] == 'call' and x[1].endswith(('garside_length', 'canonical_length', 'canonical_length')):
            return True
        if x[0] == 'call' and x[1] == 'len' and x[2][0][1][0] == 'attr' and x[2][0][1][2] == 'factors':
            return True
    return False


def entry(ctx, rule, key, loc, where, name, t):
    """One named statistic of a table."""
    got = statof(t)
    if name in NAMES:
        if got is not None and got != name:
            ctx.violate(rule, key, loc, f'{where}: {got} is reported under the name {name}')
        elif got is not None:
            ctx.ok(rule, f'{where}: {name}')
        elif has_length(t) and not any(statof(x) for x in subterms(t)):
            ctx.violate(rule, key, loc, f'{where}: a length is reported under the name {name}')
        else:
            ctx.undecided(rule, f'{where}: {name}', show(t)[:80])
    elif name == 'length':
        inner = {statof(x) for x in subterms(t)} - {None}
        if got is not None or inner and not has_length(t):
            ctx.violate(rule, key, loc, f'{where}: {got or inner.pop()} is reported under the name length')
        else:
            ctx.ok(rule, f'{where}: length')
    elif name.startswith('projrank') and name[8:].isdigit():
        if got == 'projrank':
            n = arg(t, 'terms', 1)
            if n is not None and vn.isint(n) and n[1] != int(name[8:]):
                ctx.violate(rule, key, loc, f'{where}: {name} counts {n[1]} terms')
            else:
                ctx.ok(rule, f'{where}: {name}')
        elif got is not None:
            ctx.violate(rule, key, loc, f'{where}: {got} is reported under the name {name}')
    elif name == 'rhogap/length':
        ratio(ctx, rule, key, loc, where, t)


def arith(t):
    """Sums and differences of columns as polynomials."""
    if t[0] == 'op' and t[1] in '+-':
        return vn.padd(arith(t[2]), arith(t[3]), 1 if t[1] == '+' else -1)
    return t


def ratio(ctx, rule, key, loc, where, t):
    """rhogap/length: rhogap over the length, however rhogap is written."""
    num, den, f = t, [], Fraction(1)
    while num[0] == 'op' and num[1] == '/':
        if vn.isint(num[3]):
            f /= num[3][1]
        else:
            den.append(num[3])
        num = num[2]
    if num[0] == 'poly' and len(num[1]) == 1 and len(num[1][0][0]) == 1:
        f *= num[1][0][1]
        num = num[1][0][0][0]

    def col(x):
        if x[0] == 'idx' and x[2][0] == 'c' and isinstance(x[2][1], str):
            return x[2][1]
        return statof(x)
    lin = {}
    num = arith(num)
    for m, co in poly(num).items():
        if len(m) > 1:
            return ctx.undecided(rule, f'{where}: rhogap/length')
        k = ONE if not m else col(m[0])
        if k is None:
            return ctx.undecided(rule, f'{where}: rhogap/length')
        lin[k] = lin.get(k, 0) + co * f
    base = {'rhogap': {W: half(1), ONE: half(-1), R: half(-1), F: half(-1)}, 'projlen': {W: 1, R: -1, F: -1}, 'efflen': {W: 1, ONE: -1, R: -1, F: -1}, 'degmax': {W: 1, ONE: -1, R: -1}, 'valmin': {F: 1}, ONE: {ONE: 1}}
    tot = {}
    for k, co in lin.items():
        if k not in base:
            return ctx.undecided(rule, f'{where}: rhogap/length')
        for a, v in base[k].items():
            tot[a] = tot.get(a, 0) + co * v
    tot = {a: v for a, v in tot.items() if v}
    if tot != base['rhogap']:
        ctx.violate(rule, key, loc, f'{where}: rhogap/length is computed from {Lin(tot)} instead of (degmax - valmin) / 2')
        return
    lens = [d for d in den if has_length(d) or col(d) == 'length' or any(x == c('length') for x in subterms(d))]
    if len(den) == 1 and col(den[0]) in NAMES:
        ctx.violate(rule, key, loc, f'{where}: rhogap/length divides by {col(den[0])}')
    elif not den:
        ctx.violate(rule, key, loc, f'{where}: rhogap/length is not divided by the length')
    elif len(den) == 1 and lens:
        ctx.ok(rule, f'{where}: rhogap/length')
    else:
        ctx.undecided(rule, f'{where}: rhogap/length')


def check(ctx):
    p = ctx.prog
    RS = ctx.rule('identities', 'each statistic has the linear form the identities prescribe, reduced over the two matrix axes only')
    RN = ctx.rule('names', 'tables report each statistic under its own name')
    RC = ctx.rule('columns', 'row tuples have as many values as there are columns, in the order of the columns')
    inl = [q for q in module_funcs(ctx, 'polymat')]
    for q, spec in SPEC.items():
        f = p.need(q)
        r = run(ctx, f, inl)
        t = single(r)
        if t is None:
            ctx.undecided(RS, q, 'no single value')
            continue
        judge(ctx, RS, q, f.loc(), q, t, spec, {f.params[0]})
    f = p.need('polymat.proj_starts_ends')
    t = single(run(ctx, f, inl))
    it = items(t) if t is not None else None
    if it is None or len(it) != 2:
        ctx.undecided(RS, f.short, 'not a pair')
    else:
        judge(ctx, RS, f.short + '|start', f.loc(), 'the projective start', it[0], ({F: 1}, None, 'valmin'), {f.params[0]})
        judge(ctx, RS, f.short + '|end', f.loc(), 'the projective end', it[1], ({W: 1, R: -1}, None, 'degmax + 1'), {f.params[0]})
    f = p.need('polymat.nz_terms')
    t = single(run(ctx, f, inl))
    if t is not None:
        try:
            x = interp(t, {f.params[0]})
            if isinstance(x, Img) and x.kind == 'count':
                if sorted(x.gone) != ['D', 'I', 'J'] or x.axes:
                    ctx.violate(RS, f.short, f.loc(), f'nz_terms counts over the axes {", ".join(x.gone)} only')
                else:
                    ctx.ok(RS, 'nz_terms counts over both matrix axes and the degrees')
            elif isinstance(x, Img) and x.kind in ('nz', 'z'):
                ctx.violate(RS, f.short, f.loc(), 'nz_terms is a truth value, not a count')
            else:
                ctx.undecided(RS, f.short, show(t)[:100])
        except Bad as e:
            ctx.violate(RS, f.short, f.loc(), f'nz_terms: {e}')
    projrank(ctx, RS, inl)
    # what the linear fragment leaves open is compared with its definition
    left = ['peyl.polymat.proj_starts_ends' if w.startswith('the projective') else 'peyl.' + w.split(':')[0] for w in ctx.rules[RS]['undecided']]
    compare(ctx, RS, set(left))
    # tables
    for f in p.funcs:
        if f.mod.name.split('.')[-1] not in ('bucketing', 'braidsearch', 'search', 'jonesrep'):
            continue
        r = run(ctx, f)
        if r is None:
            continue
        for e in r.events:
            if e.kind == 'call' or e.kind == 'return':
                for t in subterms(e.term if e.kind == 'call' else e.value) if e.kind == 'return' or e.name.endswith(('from_dict', 'DataFrame', 'assign')) else ():
                    if t[0] == 'dict':
                        for k, v in t[1]:
                            if k[0] == 'c' and isinstance(k[1], str):
                                entry(ctx, RN, f'{f.short}|{k[1]}', e.loc(), f.short, k[1], v)
                    elif t[0] == 'call' and t[1] == 'dict':
                        for k, v in t[2]:
                            if isinstance(k, str):
                                entry(ctx, RN, f'{f.short}|{k}', e.loc(), f.short, k, v)
                if e.kind == 'call' and e.name.endswith('DataFrame'):
                    columns(ctx, RC, f, e, r)
            elif e.kind == 'store' and e.index[0] == 'c' and isinstance(e.index[1], str):
                entry(ctx, RN, f'{f.short}|{e.index[1]}', e.loc(), f.short, e.index[1], e.value)
    # the statistics classes: a name and what it calculates
    for k in p.all_classes:
        if 'calculate' in k.methods and 'name' in k.attrs and k.attrs['name'][1] is not None:
            nm = getattr(k.attrs['name'][1], 'value', None)
            f = k.methods['calculate']
            t = single(run(ctx, f))
            if isinstance(nm, str) and t is not None:
                entry(ctx, RN, k.qual, f.loc(), k.name, nm, t)
                if nm not in NAMES | {'length'}:
                    ctx.ok(RN, k.name)
            CLASS = {'ProjectiveLength': 'projlen', 'NonzeroTerms': 'nz_terms', 'CanonicalLength': 'length'}
            if k.name in CLASS and isinstance(nm, str) and nm != CLASS[k.name]:
                ctx.violate(RN, k.qual + '|name', f.loc(), f'{k.name} is reported under the name {nm}')
    ctx.floor(RS, 6)
    ctx.floor(RN, 8)


def projrank(ctx, rule, inl):
    f = ctx.prog.func('polymat.projrank')
    if f is None:
        return
    r = run(ctx, f, [])
    t = single(r)
    if t is None or len(f.params) != 2:
        return
    A, n = ('p', f.params[0]), ('p', f.params[1])
    ranks = [x for x in subterms(t) if x[0] == 'call' and x[1].endswith('matrix_rank')]
    for x in ranks:
        a = x[2][0][1]
        if a[0] == 'idx' and a[1] == A:
            ix = items(a[2])
            if ix and len(ix) == 2 and ix[0] == c(Ellipsis) and ix[1][0] in ('iv', 'poly'):
                ivs = [y for y in subterms(ix[1]) if y[0] == 'iv']
                if len(ivs) == 1 and r.loops[ivs[0][1]].kind == 'range':
                    L = r.loops[ivs[0][1]]
                    lo, hi = (vn.subst(ix[1], {ivs[0]: L.lo}), vn.subst(ix[1], {ivs[0]: L.hi}))
                    if lo != c(0):
                        ctx.violate(rule, f.short, f.loc(), f'projrank starts at the coefficient matrix {show(lo)} instead of 0')
                    elif hi[0] in ('p', 'poly') and set(vn.atoms(hi)) == {n} and hi != n:
                        ctx.violate(rule, f.short, f.loc(), f'projrank runs up to coefficient matrix {show(hi)}, asked for {n[1]}')
                    else:
                        ctx.ok(rule, 'projrank adds the ranks of the first coefficient matrices')
            elif ix and ix[0] != c(Ellipsis):
                ctx.violate(rule, f.short, f.loc(), f'projrank takes the rank of {show(a)[:60]}, which is not a coefficient matrix')


# what a value of a row is about, by the data it is made of
def meaning(t):
    s = set()
    for x in subterms(t):
        if x[0] == 'attr' and x[2] in ('reservoir_count', 'reservoir_weight', 'weights', 'tag'):
            s.add(x[2])
        if x[0] == 'call' and (x[1].endswith('.size') or x[1] == 'len'):
            s.add('size')
    if t[0] == 'op' and t[1] == '/':
        a, b = meaning(t[2]), meaning(t[3])
        if 'weights' in a:
            return {'reservoir_weight_avg'} if b == {'size'} else {'weights over ' + '/'.join(sorted(b))}
        if a == {'reservoir_weight'}:
            return {'reservoir_weight_avg_seen'} if b == {'reservoir_count'} else {'reservoir weight over ' + '/'.join(sorted(b))}
    return s


COLS = {'count': {'size'}, 'reservoir_count': {'reservoir_count'}, 'reservoir_weight_avg': {'reservoir_weight_avg'}, 'reservoir_weight_avg_seen': {'reservoir_weight_avg_seen'}}


def columns(ctx, rule, f, e, r):
    cols, data = arg(e.term, 'columns'), arg(e.term, 'data', 0)
    if cols is None or data is None or items(cols) is None:
        return
    row = data[3] if data[0] == 'comp' else None
    if row is None or items(row) is None:
        return
    cs, rs = items(cols), items(row)
    if len(cs) != len(rs) or [x[0] == 'star' for x in cs] != [x[0] == 'star' for x in rs]:
        if sum(x[0] == 'star' for x in cs) == sum(x[0] == 'star' for x in rs) <= 1:
            ctx.violate(rule, f'{f.short}|columns', e.loc(), f'{f.short}: rows have {len(rs)} parts {"starting differently" if len(cs) == len(rs) else ""} for {len(cs)} columns')
        else:
            ctx.undecided(rule, f.short, 'starred columns and row differ in shape')
        return
    for a, b in zip(cs, rs):
        if a[0] == 'c' and a[1] in COLS:
            m = meaning(b)
            if m and m != COLS[a[1]] and m <= {'size', 'reservoir_count', 'reservoir_weight', 'reservoir_weight_avg', 'reservoir_weight_avg_seen'} | {x for x in m if ' over ' in x}:
                ctx.violate(rule, f'{f.short}|{a[1]}', e.loc(), f'{f.short}: column {a[1]} holds {show(b)[:80]}')
            else:
                ctx.ok(rule, f'{f.short}: {a[1]}')
