"""C05: buckets keep braids, images, weights and counts in step (canonical effects of bucket operations, E2)."""
from ..spec import compare

EXPLAIN = ('Value numbering of each operation gives what it yields, changes and refuses as canonical terms (loops named by what they run over, helpers inlined, locals gone, conditions as ordered decision diagrams); '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.bucketing
  Bucket.create ret
  Bucket.size ret
  Bucket.is_full ret
  Bucket.braids_images ret
  Bucket.show_reservoir effects :: an offered braid is counted once, with its weight
  Bucket.append_braid ret+effects+refuse :: braid, image and weight go to the next free slot together
  Bucket.replace_braid effects+refuse :: braid, image and weight replace one occupied slot together
  Tracker.__init__ effects
  Tracker.discard_bucket effects
  Tracker.bucket_braids_images ret
  Tracker.add_braids_images effects+refuse :: each offered braid is counted once and goes with its image and weight to the bucket of its tag
  Tracker.nf_descendants effects
  Tracker.bootstrap_exhaustive effects
  Tracker.valiate_buckets ret
  Stats.CanonicalLength.calculate ret
  Stats.ProjectiveLength.calculate ret
  Stats.NonzeroTerms.calculate ret
  Stats.NFKind.calculate ret
peyl.braidsearch
  Tracker.__init__ effects
  Tracker.discard_bucket effects :: a discarded bucket loses its braids, images and membership set together
  Tracker.bucket_braids_images ret
  Tracker.add_braids_images effects+refuse :: each offered braid is counted once and goes with its image to the same slot of the bucket of its key
  Tracker.braid_image_stats refuse
  Tracker.valiate_buckets ret
  Tracker.bucket_product effects
  Tracker.nf_descendants effects
  Tracker.bootstrap_exhaustive effects
'''


def check(ctx):
    R = ctx.rule('definition', 'what each bucket operation stores, counts and removes is as specified')
    compare(ctx, R)
    ctx.floor(R, 20)
