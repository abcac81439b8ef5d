"""C18: counts and tables agree with what they describe (canonical terms, E2)."""
from ..spec import compare

EXPLAIN = ('Value numbering of each counting, measuring and tabulating operation gives what it yields as canonical terms: what is counted, over which range, under which condition, which figure goes under which heading; '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.braid
  NFTable.count_normal_forms ret
  NFBase.count_all_of_length ret
  BraidGroup.count_all_of_garside_length ret
  NFBase.canonical_length ret
  NFBase.inf ret
  NFBase.sup ret
  GNF.garside_length ret
peyl.noncrossing
  catalan ret
peyl.permutations
  cycle_type ret
  parity ret
  length ret
  right_descent_set ret
  left_descent_set ret
  is_right_descent ret
  is_left_descent ret
  Permutation.length ret
  Permutation.cycle_type ret
  Permutation.right_descent_set ret
  Permutation.left_descent_set ret
  Permutation.is_right_descent ret
  Permutation.is_left_descent ret
peyl.tl
  cell_dimension ret
  through_strands ret
  trace_count ret
  TLMor.support ret
  TLMor.pairs ret
  TLMor.coefficient ret
  TLMor.is_zero ret
  TLCell.dim ret
  TLCell.trace_scalar ret
peyl.jonesrep
  JonesCellRep.dimension ret
  LKBRep.dimension ret
peyl.braidsearch
  JonesSummand.dimension ret
  Tracker.braid_image_stats ret
  Tracker.bucket_stats ret
  Tracker.stats ret
  Tracker.stats_reservoir ret
  braids_images_to_dataframe ret
peyl.bucketing
  Bucket.size ret
  Bucket.is_full ret
  Tracker.braid_image_stats ret
  Tracker.bucket_stats ret
  Tracker.stats ret
  Stats.NFKind.calculate ret
  Stats.CanonicalLength.calculate ret
  Stats.ProjectiveLength.calculate ret
  Stats.NonzeroTerms.calculate ret
peyl.matrix
  Matrix.is_integral ret
  Matrix.is_square ret
search
  elapsed.__enter__ effects
  elapsed.__exit__ effects
'''


def check(ctx):
    R = ctx.rule('definition', 'figures are computed from what they describe')
    compare(ctx, R)
    ctx.floor(R, 40)
