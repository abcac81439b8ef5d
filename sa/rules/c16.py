"""C16: exhaustive sweeps leave nothing out and keep pairs aligned (canonical terms, E2)."""
from ..spec import compare

EXPLAIN = ('Value numbering of each operation gives what it yields, changes and refuses as canonical terms (loops named by what they run over, helpers inlined, locals gone, conditions as ordered decision diagrams); '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.bucketing
  batched yields :: batches must hand on every item once and in order
peyl.bucketing
  Tracker.add_braids_images effects
  Tracker.nf_descendants effects
  Tracker.bootstrap_exhaustive effects
peyl.bucketing
  Stats.NFKind.calculate ret
  Stats.CanonicalLength.calculate ret
  Stats.ProjectiveLength.calculate ret
  Stats.NonzeroTerms.calculate ret
  Tracker.braid_image_stats ret
  Tracker.bucket_braids_images ret
peyl.braidsearch
  batched yields :: batches must hand on every item once and in order
peyl.braidsearch
  Tracker.bucket_product effects
  Tracker.nf_descendants effects
  Tracker.substrings effects
  Tracker.bootstrap_exhaustive effects
  Tracker.add_braids_images effects
peyl.braidsearch
  evaluate_braids_of_same_length ret
  evaluate_prefixes_of_same_length ret
  evaluate_braids ret
  sample_braids_images ret
  sample_braids_images_upto_length ret
  braids_images_to_dataframe ret
  all_of_length_below_1 ret
  Tracker.bucket_braids_images ret
peyl.jonesrep
  RepBase.polymat_evaluate_braid ret
  RepBase.polymat_evaluate_braids_of_same_length ret
  RepBase.polymat_evaluate_braid_integers_of_same_length ret
peyl.polymat
  pack ret
  concatenate ret
peyl.braid
  NFTable.normal_forms yields
peyl.braid
  NFBase.all_of_length ret
  NFBase.nf_suffixes ret
  NFBase.nf_descendants ret
  BraidGroup.all_of_garside_length ret
  NFBase.substring ret
peyl.tl
  JonesRep.__init__ effects
'''


def batch_axis(t):
    """Axis of the batch direction of X[...] when a second batch direction is put in, and what is indexed."""
    if t[0] != 'idx':
        return None
    ax = list(t[2][1]) if t[2][0] == 'seq' else [t[2]]
    if ('c', Ellipsis) in ax:
        ax = ax[:ax.index(('c', Ellipsis))]
    full = ('slice', ('c', None), ('c', None), ('c', None))
    if ax.count(('c', None)) != 1 or any(x not in (full, ('c', None)) for x in ax):
        return None
    return (1 if ax[0] == ('c', None) else 0), t[1]


def origins(t):
    from ..vn import subterms
    return {x for x in subterms(t) if x[0] == 'call' and x[1].endswith('braids_images')}


def pairing(ctx):
    """All products of two batches: the nesting of the loops over braids is the layout of the images."""
    from .. import spec
    from ..canon import Form
    from ..vn import subterms
    P = ctx.rule('pairing', 'when all products of two batches are formed, the nesting of the loops over the braids is the layout of the batch directions of their images, left factor with left image')
    for q in ('bucketing.Tracker.nf_descendants', 'braidsearch.Tracker.bucket_product'):
        f = ctx.prog.func(q)
        r = f and spec.run(ctx, f)
        if not r:
            ctx.undecided(P, q, 'no longer there' if f is None else 'not analysable')
            continue
        n = 0
        for e in Form(r).effects()[1]:
            if e[0] != 'E.call' or not e[2].endswith('add_braids_images'):
                continue
            a = dict(e[3])
            bs, im = a.get('braids'), a.get('images')
            if not (bs and im and bs[0] == 'comp' and len(bs[2]) == 2 and not bs[4] and bs[3][:2] == ('op', '*')):
                continue
            n += 1
            lv = [[k for k, L in enumerate(bs[2]) if ('iv', L) in set(subterms(x))] for x in bs[3][2:4]]
            d = dict(im[2]) if im[0] == 'call' and im[1] == 'numpy.reshape' else {}
            if d.get('order', ('c', 'C')) == ('c', 'F'):
                ctx.violate(P, f'{q}|order', f.loc(), f'{q}: the images are laid out column by column, the products row by row')
                continue
            m = d.get('a')
            m = dict(m[2]) if m and m[0] == 'call' and m[1].endswith('mul') else {}
            ax = [batch_axis(m[k]) if k in m else None for k in ('left', 'right')]
            if None in ax or any(len(x) != 1 for x in lv) or lv[0] == lv[1] or ax[0][0] == ax[1][0]:
                ctx.undecided(P, q, 'products not formed by broadcasting two batches')
                continue
            src = [origins(x) for x in bs[3][2:4]]
            img = [origins(x[1]) for x in ax]
            if src[0] and src[1] and not (src[0] & img[0]) and src[0] & img[1] and not src[0] & src[1]:
                ctx.violate(P, f'{q}|sides', f.loc(), f'{q}: the left factor of the product of braids is the right factor of the product of images')
            elif lv[0][0] != ax[0][0]:
                ctx.violate(P, f'{q}|nesting', f.loc(), f'{q}: the left factors run {"inside" if lv[0][0] else "outside"} in the list of products but {"inside" if ax[0][0] else "outside"} in the array of images')
            else:
                ctx.ok(P, f'{q}: {"left" if lv[0][0] == 0 else "right"} factors outermost in both')
        if not n:
            ctx.undecided(P, q, 'no product of two batches recognised')


def check(ctx):
    pairing(ctx)
    R = ctx.rule('definition', 'sweeps, batches and pairings are as specified')
    compare(ctx, R)
    ctx.floor(R, 35)
