"""C01: no operation changes its inputs or anything shared (effect analysis, E1)."""
import ast, os
from ..front import AnalysisBroken, walk_local
from ..flow import local_names

EXPLAIN = ('Interprocedural may-mutate analysis (alias + effect summaries over the syntax tree, instantiated context-sensitively at every call and '
           'iterated to a fixpoint over the call graph). For every public operation the set of existing objects it may change is computed; '
           'anything but the own state of a tracker/bucket mutator, a constructor\'s new object or a local of an enclosing function is reported.')
ASSUME = ['External library functions mutate only what the model table says (list/dict/set/ndarray methods, heapq, numpy out= and in-place functions).',
          'Reflection (setattr with computed names, exec) is absent; the rule reports object.__setattr__ and vars()/__dict__ stores as mutations.']

# The operations allowed to change the tracker or bucket they are invoked on; everything else on these classes only asks.
OWNERS = {'bucketing.Tracker', 'braidsearch.Tracker', 'bucketing.Bucket'}
QUERIES = {'stats', 'bucket_stats', 'bucket_braids_images', 'stats_reservoir', 'valiate_buckets', 'hash_bucket', 'size', 'is_full', 'braids_images',
           'braid_image_stats'}
CONSTRUCT = {'__init__', '__post_init__', '__new__', '__enter__', '__exit__'}
API = os.path.join(os.path.dirname(__file__), '..', 'api.txt')


def api():
    return set(open(API).read().split())


def describe(o, step):
    kind, name, path = o
    what = {'p': 'argument', 'cap': 'captured variable', 'cache': 'the cached result of', 'glob': 'module-level', 'cls': 'class-level', 'dflt': 'default argument'}.get(kind, kind)
    return f'{what} {name}{"".join(path)}' + (step or '')


def owner_ok(p, f):
    """Is f a method through which a tracker/bucket (or a subclass of one) may be changed?"""
    return f.cls is not None and any(c.qual.replace('peyl.', '', 1) in OWNERS for c in f.cls.mro()) and f.name not in QUERIES


def check(ctx):
    an, p = ctx.an, ctx.prog
    known_api = api()
    R1 = ctx.rule('inputs', 'a public operation\'s summary mutates no object reachable from its parameters (own tracker/bucket state excepted)')
    R2 = ctx.rule('shared', 'no function\'s summary mutates a cached result, a module- or class-level object, or a default argument')
    R3 = ctx.rule('query', 'read-only tracker and bucket methods mutate nothing')
    R4 = ctx.rule('yielded', 'an object handed out by yield is not changed afterwards by the generator')
    from .c02 import memo_stores
    memos = memo_stores(ctx)
    for f in p.funcs:
        s = an.sum[f]
        public = f.short in known_api
        bad1, bad2 = [], []
        for (o, step, kind, where) in s.muts:
            if (o[0], o[1]) in memos or ('p', 'self') == o[:2] and f.cls and o[2] and (f.cls.qual, o[2][0]) in memos:
                continue
            if o[0] == 'p':
                own = f.receiver() == o[1]
                if own and f.name in CONSTRUCT and len(o[2]) <= 1:
                    continue
                if own and owner_ok(p, f):
                    continue
                if own and f.cls and (f.name.startswith('_') and not f.name.startswith('__')) and any(c.qual.replace('peyl.', '', 1) in OWNERS for c in f.cls.mro()):
                    continue
                if public:
                    bad1.append((o, step, kind, where))
            elif o[0] == 'cap':
                continue         # a local of the enclosing function; reported there if it is not
            else:
                bad2.append((o, step, kind, where))
        rule1 = R3 if f.cls and f.name in QUERIES and any(c.qual.replace('peyl.', '', 1) in OWNERS for c in f.cls.mro()) else R1
        for (o, step, kind, where) in bad1:
            ctx.violate(rule1, f'{f.short}|{o[1]}{"".join(o[2])}', where, f'{f.short} changes {describe(o, step)}: {kind}')
        for (o, step, kind, where) in bad2:
            ctx.violate(R2, f'{f.short}|{o[0]}:{o[1]}', where, f'{f.short} changes {describe(o, step)}: {kind}')
        if public and not bad1:
            ctx.ok(rule1, f'{f.short}: {len(s.muts)} effects, none on its inputs')
        if not bad2:
            ctx.ok(R2)
        for where, msg in s.exposed.items():
            ctx.violate(R4, f'{f.short}', where, f'{f.short}: {msg}')
        if f.is_gen and not s.exposed:
            ctx.ok(R4, f'{f.short} yields')
    held(ctx, R2)
    ctx.floor(R1, 150)
    ctx.floor(R4, 4)


def editable(n):
    return isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] in ('list', 'dict', 'set', 'defaultdict', 'deque', 'OrderedDict', 'Counter', 'zeros', 'ones', 'empty', 'array', 'full')


def held(ctx, R):
    """No object takes an editable object of the module, its class or a default for the field that its methods edit."""
    an, p = ctx.an, ctx.prog
    edited, reached = {}, set()
    for f in p.funcs:
        for (o, step, kind, where) in an.sum[f].muts:
            if o[2] and o[2][-1].startswith('.'):
                reached.add(o[2][-1][1:])
        if f.cls is not None:
            for (o, step, kind, where) in an.sum[f].muts:
                if o[0] == 'p' and o[1] == f.receiver() and o[2] and o[2][0].startswith('.'):
                    edited.setdefault(o[2][0][1:], set()).add(f.cls)
    for f in p.funcs:
        if f.name in getattr(p, 'refs', {}):
            continue
        own = local_names(f)

        def common(n):
            if isinstance(n, ast.Name):
                if n.id in f.defaults and editable(f.defaults[n.id]):
                    return 'the default of its parameter ' + n.id
                if n.id not in own and n.id not in f.allparams():
                    vs = f.mod.vars.get(n.id, ())
                    if len(vs) == 1 and editable(vs[0]):
                        return 'the object of the module called ' + n.id
            return None
        for n in walk_local(f.node):
            found = []
            if isinstance(n, ast.Call):
                for t in (an.vals[n.func].types if n.func in an.vals else ()):
                    if t[0] == 'class' and own_fields(t[1]):
                        found += [(t[1], nm, a) for nm, a in list(zip(own_fields(t[1]), n.args)) + [(k.arg, k.value) for k in n.keywords]]
            elif isinstance(n, ast.Assign) and f.cls is not None:
                found += [(f.cls, t.attr, n.value) for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.receiver()]
            for c, nm, a in found:
                what = common(a)
                if what and (nm in reached and dataclass_field(c, nm) or any(k in edited.get(nm, ()) for k in c.mro())):
                    ctx.violate(R, f'{f.short}|{c.name}.{nm}', f.loc(n), f'{f.short}: every {c.name} shares {what} as its {nm}, which is edited')


def own_fields(c):
    return [x[0] for x in c.fields()] if c.dataclass is not None else []


def dataclass_field(c, nm):
    return nm in own_fields(c)
