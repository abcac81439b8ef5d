"""C07: values are valid by construction and cannot be edited."""
import ast
from ..front import walk_local
from ..spec import compare

EXPLAIN = ('Value numbering of each operation gives what it yields, changes and refuses as canonical terms (loops named by what they run over, helpers inlined, locals gone, conditions as ordered decision diagrams); '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.braid
  NFTable.is_factors_normalised ret :: factors are brought to normal form otherwise than specified
  NFTable.normalise_factors ret :: factors are brought to normal form otherwise than specified
  NFTable.product_normalised_factors ret :: factors are brought to normal form otherwise than specified
  NFTable.sample ret :: factors are brought to normal form otherwise than specified
peyl.braid
  NFTable.normal_forms yields :: sequences it yields need not be normal forms
peyl.braid
  NFBase.__post_init__ refuse :: the data are not checked as specified
  BraidGroup.__post_init__ refuse :: the data are not checked as specified
peyl.braid
  PermTable.create ret :: the braid is constructed otherwise than specified
  NParTable.create ret :: the braid is constructed otherwise than specified
  NFBase.identity ret :: the braid is constructed otherwise than specified
  NFBase.artin_gens ret :: the braid is constructed otherwise than specified
  NFBase.__mul__ ret :: the braid is constructed otherwise than specified
  NFBase.inv ret :: the braid is constructed otherwise than specified
  NFBase.__pow__ ret :: the braid is constructed otherwise than specified
  NFBase.substring ret :: the braid is constructed otherwise than specified
  NFBase.nf_descendants ret :: the braid is constructed otherwise than specified
  NFBase.nf_suffixes ret :: the braid is constructed otherwise than specified
  NFBase.all_of_length ret :: the braid is constructed otherwise than specified
  NFBase.sample ret :: the braid is constructed otherwise than specified
  GNF.from_perm ret :: the braid is constructed otherwise than specified
  GNF.from_perm_seq ret :: the braid is constructed otherwise than specified
  GNF.from_artin_word ret :: the braid is constructed otherwise than specified
  DGNF.from_npar ret :: the braid is constructed otherwise than specified
  DGNF.bkl_gens ret :: the braid is constructed otherwise than specified
  DGNF.from_npar_seq ret :: the braid is constructed otherwise than specified
  DGNF.from_artin_word ret :: the braid is constructed otherwise than specified
  BraidGroup.id ret :: the braid is constructed otherwise than specified
  BraidGroup.gens ret :: the braid is constructed otherwise than specified
  BraidGroup.bkl_gens ret :: the braid is constructed otherwise than specified
  BraidGroup.positive_lift ret :: the braid is constructed otherwise than specified
  BraidGroup.from_npar ret :: the braid is constructed otherwise than specified
  BraidGroup.from_gnf_pair ret :: the braid is constructed otherwise than specified
  convert_braid ret :: the braid is constructed otherwise than specified
peyl.permutations
  Permutation.__post_init__ refuse :: the data are not checked as specified
  SymmetricGroup.__post_init__ refuse :: the data are not checked as specified
peyl.permutations
  is_permutation ret :: the data are not checked as specified
peyl.noncrossing
  NPar.__post_init__ refuse :: the data are not checked as specified
  NPar.from_components refuse :: the data are not checked as specified
peyl.noncrossing
  are_pairwise_disjoint ret
  NPar.from_components ret
  NPar.finest ret
  NPar.coarsest ret
peyl.tl
  TLDiag.__init__ refuse :: the data are not checked as specified
  TLExtDiag.__init__ refuse :: the data are not checked as specified
  TLMor.__init__ refuse :: the data are not checked as specified
  TLCell.__post_init__ refuse :: the data are not checked as specified
peyl.tl
  is_crossingless_matching ret :: the data are not checked as specified
peyl.tl
  TLDiag.__init__ effects
  TLExtDiag.__init__ effects
  TLMor.__init__ effects
peyl.matrix
  Matrix.__post_init__ refuse :: the data are not checked as specified
peyl.braid
  GNF._nf_table ret
  DGNF._nf_table ret
  BraidGroup.sample_braid_perm ret
'''


# kinds of values that cannot be edited, and the fields whose content must not be editable either
IMMUTABLE = ('braid.GNF', 'braid.DGNF', 'braid.BraidGroup', 'permutations.Permutation', 'noncrossing.NPar', 'matrix.Matrix', 'tl.TLCell')
EDITABLE = {'list', 'dict', 'set', 'ndarray', 'bytearray', 'gen', 'iter'}


def option(c, name, default):
    return default if c.dataclass is None or c.dataclass.get(name) is None else c.dataclass[name]


def own_init(c):
    """The __init__ written out for a class, unless a generated one comes first."""
    for k in c.mro():
        if '__init__' in k.methods and not k.methods['__init__'].abstract:
            return k.methods['__init__']
        if k.dataclass is not None and option(k, 'init', True) is not False:
            return None
    return None


def raises_always(f):
    """Does a __setattr__ refuse every assignment?"""
    return any(isinstance(s, ast.Raise) for s in f.node.body)


def frozen(ctx):
    p, an = ctx.prog, ctx.an
    F = ctx.rule('frozen', 'braids, braid groups, permutations, partitions, matrices and cell modules refuse assignment to their fields, and their fields hold nothing editable')
    P = ctx.rule('reached', 'the check of the data runs whenever an object is made: no class replaces it or leaves it out, and no object is made or edited behind it')
    imm = []
    for q in IMMUTABLE:
        c = next((c for c in p.all_classes if c.qual == 'peyl.' + q), None)
        if c is None:
            ctx.undecided(F, q, 'no longer there')
            continue
        imm.append(c)
        known = not any(k.ext_bases and not set(k.ext_bases) <= {'typing.Generic', 'Generic', 'abc.ABC', 'ABC', 'typing.Protocol', 'object'} for k in c.mro())
        guard = next((k.methods[m] for k in c.mro() for m in ('__setattr__',) if m in k.methods), None)
        fz = c.dataclass is not None and option(c, 'frozen', False) is True
        if guard is not None and not raises_always(guard):
            ctx.undecided(F, q, f'{guard.short} decides which fields can be assigned')
        elif fz or guard is not None:
            ctx.ok(F, f'{c.name} refuses assignment')
        elif not known or c.slots is not None:
            ctx.undecided(F, q, 'whether its fields can be assigned depends on a base class outside the repository')
        else:
            ctx.violate(F, f'{q}|frozen', f'{c.mod.rel}:{c.node.lineno}', f'{c.name} accepts assignment to its fields after construction ({"a dataclass that is not frozen" if c.dataclass is not None else "an ordinary class"})')
        posts = [k for k in c.mro() if '__post_init__' in k.methods]
        if posts:
            m, top = posts[0].methods['__post_init__'], posts[-1]
            calls = {n.func.attr for n in ast.walk(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
            if len(posts) > 1 and '__post_init__' not in calls:
                if any(isinstance(n, (ast.Assert, ast.Raise)) for n in ast.walk(m.node)):
                    ctx.undecided(P, q, f'{m.short} checks the data in its own way')
                else:
                    ctx.violate(P, f'{q}|post', m.loc(), f'{m.short} replaces the check of {top.name} without calling it')
            elif own_init(c) is not None or all(option(k, 'init', True) is False for k in c.mro() if k.dataclass is not None) and any(k.dataclass is not None for k in c.mro()):
                ini = own_init(c)
                if ini is not None and '__post_init__' not in {n.func.attr for n in ast.walk(ini.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)} \
                        and not any(isinstance(n, (ast.Assert, ast.Raise)) for n in ast.walk(ini.node)):
                    ctx.violate(P, f'{q}|init', ini.loc(), f'{ini.short} leaves out the check of the data')
                else:
                    ctx.undecided(P, q, 'the object is not made by a generated constructor')
            elif c.dataclass is None and not any(k.dataclass is not None for k in c.mro()):
                ctx.violate(P, f'{q}|nodata', f'{c.mod.rel}:{c.node.lineno}', f'{c.name} is no dataclass: nothing calls its __post_init__')
            else:
                ctx.ok(P, f'{c.name}: {m.short} runs at construction')
    family = {k for c in imm for k in [c] + an.subclasses.get(c, [])}
    for f in p.funcs:
        if f.name in getattr(p, 'refs', {}):
            continue
        for n in walk_local(f.node):
            if not isinstance(n, ast.Call):
                continue
            fn = ast.unparse(n.func)
            own = f.name in ('__init__', '__post_init__', '__new__', '__setstate__')
            if fn in ('object.__setattr__', 'object.__delattr__', 'object.__new__') and n.args and not own:
                v = an.vals.get(n.args[0])
                if v is not None and v.types and all(t[0] in ('inst', 'class') and t[1] in family for t in v.types):
                    ctx.violate(P, f'{f.short}|{fn}', f.loc(n), f'{f.short} {"makes" if fn.endswith("new__") else "edits"} {sorted(t[1].name for t in v.types)[0]} behind its check of the data')
                continue
            for t in (an.vals[n.func].types if n.func in an.vals else ()):
                K = t[1] if t[0] == 'class' else None
                if K is not None and K not in family:
                    K = next((k for k in an.subclasses.get(K, []) if k in family), None)
                if K is None or own_init(K) is not None:
                    continue
                names = [x[0] for x in K.fields()]
                if any(isinstance(a, ast.Starred) for a in n.args):
                    continue
                for nm, a in list(zip(names, n.args)) + [(k.arg, k.value) for k in n.keywords if k.arg in names]:
                    v = an.vals.get(a)
                    kinds = {x[0] for x in v.types} if v is not None else set()
                    if kinds and kinds <= EDITABLE:
                        post = K.find_method('__post_init__')
                        if post is not None and any(isinstance(x, ast.Call) and ast.unparse(x.func) == 'object.__setattr__' for x in ast.walk(post.node)):
                            ctx.undecided(F, f'{f.short}: {K.name}.{nm}', 'converted at construction')
                        else:
                            ctx.violate(F, f'{f.short}|{K.name}.{nm}', f.loc(n), f'{f.short} stores an editable {sorted(kinds)[0]} in {K.name}.{nm}')
                    elif kinds:
                        ctx.ok(F, f'{f.short}: {K.name}.{nm}')
    ctx.floor(F, 30)


def check(ctx):
    frozen(ctx)
    R = ctx.rule('definition', 'constructions and checks of constructors are as specified')
    compare(ctx, R)
    ctx.floor(R, 30)
