"""C04: images mod p are fully reduced, and packed images projective (typestate over canonical terms, E2)."""
from ..spec import compare

EXPLAIN = ('Value numbering of each operation gives what it yields, changes and refuses as canonical terms (loops named by what they run over, helpers inlined, locals gone, conditions as ordered decision diagrams); '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.jonesrep
  JonesCellRep.artin_gens_invs ret :: generator matrices are not reduced mod p as specified
  LKBRep.artin_gens_invs ret :: generator matrices are not reduced mod p as specified
  RepBase.polymat_dtype ret
  RepBase.evaluate_artin_word ret :: the image of a word is not reduced mod p as specified
  RepBase.evaluate ret
  RepBase.polymat_id ret
  RepBase.polymat_mul ret :: a product of images must be reduced and then made projective
  RepBase.polymat_artin_gens_invs ret :: packed generators must be reduced and then made projective
  RepBase._polymat_braid_factor ret :: the packed image of a factor must be made projective
  RepBase._polymat_delta_power ret :: the packed image of a power of the Garside element must be reduced and made projective
  RepBase.polymat_evaluate_artin_word ret :: the packed image of a word must be reduced after every product and made projective
  RepBase.polymat_evaluate ret
  RepBase.polymat_evaluate_braid ret
  RepBase.polymat_evaluate_braids_of_same_length ret
  RepBase.polymat_evaluate_braid_integers_of_same_length ret
peyl.braidsearch
  JonesSummand.dtype ret
  JonesSummand.id ret
  JonesSummand.artin_gens_invs ret :: packed generators must be reduced and then made projective
  JonesSummand.mul ret :: a product of images must be reduced and then made projective
  symmetric_table ret :: images of permutations must be products of reduced images, made projective
  evaluate_braid_factors ret
  evaluate_braids_of_same_length ret
  evaluate_prefixes_of_same_length ret
  evaluate_braids ret
  sample_braids_images ret
  Tracker.add_braids_images effects :: stored images must be made projective
peyl.bucketing
  Tracker.add_braids_images effects :: stored images must be made projective
  Tracker.nf_descendants effects :: images must be products of reduced images
peyl.polymat
  projectivise ret :: projective form keeps exactly the degrees from the first to the last nonzero one
  proj_starts_ends ret
  from_matrix ret :: matrices with negative powers must be shifted up when packed projectively
'''


def typestate(ctx):
    """What each route hands out is reduced after the last product, and projective after the last reduction."""
    from .. import spec
    from ..canon import Form
    from ..reduced import State, CHECKED, CONTRACT
    S = ctx.rule('typestate', 'what an operation of a representation returns is reduced mod p (p > 0) after the last arithmetic and, when packed, made projective after the last reduction; '
                              'nothing is reduced when p = 0; matrices that may have negative powers are packed projectively')
    for q in CHECKED:
        f = ctx.prog.func(q)
        r = f and spec.run(ctx, f)
        if not r:
            ctx.undecided(S, q, 'no longer there' if f is None else 'not analysable')
            continue
        t = Form(r).ret()
        one, zero = State(), State(True)
        got, want = one.of(t), CONTRACT[q]
        zero.of(t)
        bad = False
        if got and got[0] is False:
            bad = True
            ctx.violate(S, f'{q}|reduced', f.loc(), f'{q}: with p > 0 a result reaches the caller without having been reduced mod p after the last arithmetic')
        if got and want[1] and got[1] is False:
            bad = True
            ctx.violate(S, f'{q}|projective', f.loc(), f'{q}: a packed image reaches the caller without having been made projective after the last product or reduction')
        if zero.zero:
            bad = True
            ctx.violate(S, f'{q}|zero', f.loc(), f'{q}: a reduction mod p is carried out although p = 0')
        if one.refused:
            bad = True
            ctx.violate(S, f'{q}|refused', f.loc(), f'{q}: a matrix that may have negative powers of the variable is packed without being shifted up, so it is refused')
        if bad:
            continue
        if got is None or got[0] is None or want[1] and got[1] is None:
            ctx.undecided(S, q, 'state of the result not known')
        else:
            ctx.ok(S, f'{q}: reduced' + (' and projective' if want[1] else ''))
    for q in ('braidsearch.Tracker.add_braids_images', 'bucketing.Tracker.add_braids_images'):
        f = ctx.prog.func(q)
        r = f and spec.run(ctx, f)
        if not r:
            ctx.undecided(S, q, 'no longer there' if f is None else 'not analysable')
            continue
        st = State(param=(True, False, False))
        n = 0
        for e in Form(r).effects()[1]:
            v = None
            if e[0] == 'E.store':
                b = e[2]
                while b[0] in ('idx', 'slice_of'):
                    b = b[1]
                v = e[4] if b[0] == 'attr' and b[2] in ('bucket_images', 'images') else None
            elif e[0] == 'E.call' and e[2].endswith(('append_braid', 'replace_braid')):
                v = dict(e[3]).get('image')
            if v is None or v[0] == 'call' and v[1].startswith('numpy.'):
                continue
            n += 1
            got = st.of(v)
            if got and got[1] is False:
                ctx.violate(S, f'{q}|stored', f.loc(), f'{q}: an image is stored without having been made projective')
            elif got and got[1]:
                ctx.ok(S, f'{q}: stored image projective')
            else:
                ctx.undecided(S, q, 'state of a stored image not known')
        if not n:
            ctx.undecided(S, q, 'no stored image recognised')


def check(ctx):
    typestate(ctx)
    R = ctx.rule('definition', 'reduction mod p and projective form happen where and in the order specified')
    compare(ctx, R)
    ctx.floor(R, 25)
