"""Shared helpers of the value-numbering rules."""
from __future__ import annotations
from .vn import VN, show
from .rules.c01 import api
from .front import AnalysisBroken
from .local import place
from .words import edits, reviewed, REWRITTEN


def vocab():
    return api()


def run(ctx, f, inline=(), keep=(), args=None, depth=5):
    """Value-number one function (memoised per check)."""
    memo = ctx.__dict__.setdefault('_vn', {})
    k = (f, tuple(sorted(inline)), tuple(sorted(keep)), tuple(sorted(args.items())) if args else None)
    if k not in memo:
        try:
            memo[k] = VN(ctx.an, vocab(), inline, keep, depth).run(f, args)
        except RecursionError:
            memo[k] = None
    return memo[k]


def module_funcs(ctx, mod):
    return [f.short for f in ctx.prog.funcs if f.mod.name == 'peyl.' + mod or f.mod.name == mod]


# ---------------------------------------------------------------- reference definitions
import ast, importlib, os, re
REFS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refs')


def library():
    """(module, class path, name) -> reference definitions (several are accepted alternatives), and the imports they use."""
    lib, imports = {}, {}
    for fn in sorted(os.listdir(REFS)):
        if not fn.endswith('.py'):
            continue
        mod = fn[:-3] if fn == 'search.py' else 'peyl.' + fn[:-3]
        with open(os.path.join(REFS, fn), encoding='utf-8') as fh:
            tree = ast.parse(fh.read(), fn)

        def walk(body, cls):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    walk(s.body, cls + (s.name,))
                elif isinstance(s, ast.FunctionDef):
                    lib.setdefault((mod, cls, s.name), []).append(s)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    imports.setdefault(mod, []).append(s)
        walk(tree.body, ())
    return lib, imports


def table(text):
    """Lines `module`, then `  Name observables [option=a,b ...] [:: message]`."""
    out, mod = [], None
    for line in text.split('\n'):
        if not line.strip() or line.lstrip().startswith('#'):
            continue
        if not line[0].isspace():
            mod = line.strip()
            continue
        line, _, msg = line.strip().partition(' :: ')
        w = line.split()
        q = w[0].split('.')
        meta = {'mod': mod, 'cls': tuple(q[:-1]), 'name': q[-1], 'obs': tuple(w[1].split('+')), 'msg': msg or 'what it does differs from its specification'}
        for o in w[2:]:
            k, _, v = o.partition('=')
            meta[k] = int(v) if v.isdigit() else tuple(v.split(','))
        out.append(meta)
    return out


def load(pid):
    """What a property asks of the reference definitions: [(module, class path, definition, options)] and their imports."""
    rules = importlib.import_module(f'sa.rules.{pid.lower()}')
    text = getattr(rules, 'SPECS', None)
    if not text:
        return [], {}
    lib, imports = library()
    out, n, by = [], 0, {}
    for meta in table(text):
        k = (meta['mod'], meta['cls'], meta['name'])
        if k in by:
            by[k]['asks'].append(meta)
            continue
        by[k] = {**meta, 'asks': [meta]}
        for d in lib[k]:
            n += 1
            d.name = f'ref{n}__{meta["name"]}'
            out.append((meta['mod'], meta['cls'], d, by[k]))
    return out, {m: imports.get(m, []) for m in {x[0] for x in out}}


def real(prog, meta):
    """The function a reference definition describes."""
    m = prog.modules.get(meta['mod'])
    if m is None:
        return None
    if not meta['cls']:
        return m.functions.get(meta['name'])
    q = meta['mod'] + '.' + '.'.join(meta['cls'])
    k = next((x for x in prog.all_classes if x.qual == q), None)
    return k.find_method(meta['name']) if k is not None else None


def twins(prog):
    out = []
    for f in prog.funcs:
        if f.name in prog.refs and f.parent is None:
            g = real(prog, prog.refs[f.name])
            if g is None or len(f.params) != len(g.params):
                continue
            # same annotations and defaults, by position
            for a, b in zip(f.params + f.kwonly, g.params + g.kwonly):
                if f.annot.get(a) is None and g.annot.get(b) is not None:
                    f.annot[a] = g.annot[b]
                if a not in f.defaults and b in g.defaults:
                    f.defaults[a] = g.defaults[b]
            if f.returns is None:
                f.returns = g.returns
            f.of = g
            out.append((f, g))
    return out


LIMIT = 2


def compare(ctx, rule, only=None):
    """Every function with reference definitions against them."""
    prog, an = ctx.prog, ctx.an
    found = {}
    for f in prog.funcs:
        if f.name in prog.refs and f.parent is None:
            found.setdefault(id(prog.refs[f.name]), []).append(f)
    for k, info in {id(m): m for m in prog.refs.values()}.items():
        name = '.'.join((info['mod'],) + info['cls'] + (info['name'],))
        g = real(prog, info)
        for meta in info['asks']:
            if meta.get('rule', (rule,))[0] != rule or meta.get('pid', ctx.pid) != ctx.pid:
                continue
            if only is not None and name not in only:
                continue
            if g is None:
                ctx.undecided(rule, name, 'no longer there')
            else:
                verdict(ctx, rule, name, g, found.get(k, ()), meta)


def form(ctx, f, meta, of=None):
    from .canon import Form
    args = None
    if of is not None and len(f.params + f.kwonly) == len(of.params + of.kwonly):
        args = {a: ('p', b) for a, b in zip(f.params + f.kwonly, of.params + of.kwonly)}
    r = run(ctx, f, inline=meta.get('inline', ()), keep=meta.get('keep', ()), args=args)
    if r is None:
        return None
    fo = Form(r, ignore=meta.get('ignore', ()), only=meta.get('words', ()))
    out = {o: getattr(fo, o)() for o in meta['obs']}
    out['_form'] = fo
    out['called'] = {g.short for e in r.events if e.kind == 'call' for g in e.targets or ()}
    return out


def verdict(ctx, rule, name, g, alts, meta):
    from .canon import judge, FAR
    F = form(ctx, g, meta)
    if F is None:
        ctx.undecided(rule, name, 'not analysable')
        return
    best = None
    for f in alts:
        R = form(ctx, f, meta, g)
        if R is None:
            continue
        tot, _ = judge([(F[o], R[o]) for o in meta['obs']])
        if 'refuse' in meta['obs'] and F['refuse'] != R['refuse'] and F['called'] - R['called']:
            tot = FAR       # what is called instead may refuse
        diffs = [(o, F[o] != R[o]) for o in meta['obs']]
        if best is None or tot < best[0]:
            best = (tot, diffs, R)
        if tot == 0:
            break
    if best is None:
        ctx.undecided(rule, name, 'no reference')
    elif best[0] == 0:
        ctx.ok(rule, f'{name}: {", ".join(meta["obs"])} as specified')
    elif best[0] <= meta.get('limit', LIMIT) and excused(F, best[2], [x for x, e in best[1] if e]):
        ctx.ok(rule, f'{name}: {", ".join(meta["obs"])} as specified, wherever the specification applies')
    elif best[0] <= meta.get('limit', LIMIT) and (edits(name, g.node, [f.node for f in alts]) or 0) <= REWRITTEN:
        o = [x for x, e in best[1] if e]
        from .canon import explain
        ctx.violate(rule, f'{name}|{",".join(o)}', g.loc(), f'{g.short}: {meta.get("msg", "what it does differs from its specification")}: {explain(F[o[0]], best[2][o[0]])}')
    elif any(places := [place(g.node, f, known(ctx)) for f in [f.node for f in alts] + reviewed().get(name, [])]):
        o = [x for x, e in best[1] if e]
        ctx.violate(rule, f'{name}|{",".join(o)}', g.loc(), f'{g.short}: {meta.get("msg", "what it does differs from its specification")}: {next(p for p in places if p)}')
    elif 'refuse' in meta['obs'] and best[2]['refuse'] != F['refuse'] and (gone := dropped(F, best[2], g, alts)):
        ctx.violate(rule, f'{name}|refuse', g.loc(), f'{g.short}: {meta.get("msg", "what it refuses differs from its specification")}: {gone} is no longer consulted')
    else:
        ctx.undecided(rule, name, f'different shape ({best[0]})')


def excused(F, R, obs):
    """The forms differ in writing only, under the preconditions of the specification."""
    from .equal import facts, same
    known = facts(R['_form'].refuse())
    return all(same(F[o], R[o], {} if o == 'refuse' else known) for o in obs)


def dropped(F, R, g, alts):
    """A test the definition relies on to refuse data that is not made any more, with nothing put in its place."""
    lost = {x for x in R['called'] - F['called'] if x.split('.')[-1].lstrip('_').startswith(('is_', 'are_', 'check', 'valid'))}
    size = min(sum(1 for _ in ast.walk(f.node)) for f in alts)
    if lost and not F['called'] - R['called'] and sum(1 for _ in ast.walk(g.node)) <= size + 40:
        return ', '.join(sorted(lost))
    return None


def known(ctx):
    """Names that mean the same here as in the reference definitions."""
    if '_known' not in ctx.__dict__:
        new = {f.name for f in ctx.prog.funcs if f.name not in ctx.prog.refs} - {w.split('.')[-1] for w in vocab()}
        ctx._known = {w for f in ctx.prog.funcs if f.name in ctx.prog.refs for w in re.findall(r'[A-Za-z_]\w*', ast.unparse(f.node))} | {w.split('.')[-1] for w in vocab()}
        ctx._known -= new
    return ctx._known
