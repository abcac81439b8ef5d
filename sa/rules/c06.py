"""C06: incompatible operands are refused, compatible ones accepted (canonical refusal conditions, E2)."""
from ..spec import compare

EXPLAIN = ('Value numbering of each operation gives what it yields, changes and refuses as canonical terms (loops named by what they run over, helpers inlined, locals gone, conditions as ordered decision diagrams); '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.braid
  NFTable.normal_forms refuse :: what it refuses and accepts differs from its specification
  PermTable.create refuse :: what it refuses and accepts differs from its specification
  NParTable.create refuse :: what it refuses and accepts differs from its specification
  NFBase.__post_init__ refuse :: what it refuses and accepts differs from its specification
  NFBase.__mul__ refuse :: what it refuses and accepts differs from its specification
  NFBase.substring refuse :: what it refuses and accepts differs from its specification
  GNF.from_perm_seq refuse :: what it refuses and accepts differs from its specification
  DGNF.from_npar_seq refuse :: what it refuses and accepts differs from its specification
  BraidGroup.__post_init__ refuse :: what it refuses and accepts differs from its specification
  BraidGroup.positive_lift refuse :: what it refuses and accepts differs from its specification
  BraidGroup.from_npar refuse :: what it refuses and accepts differs from its specification
  convert_braid refuse :: what it refuses and accepts differs from its specification
peyl.braidsearch
  cell_matrix refuse :: what it refuses and accepts differs from its specification
  JonesSummand.__post_init__ refuse :: what it refuses and accepts differs from its specification
  evaluate_braids_of_same_length refuse :: what it refuses and accepts differs from its specification
  evaluate_prefixes_of_same_length refuse :: what it refuses and accepts differs from its specification
  braids_images_to_dataframe refuse :: what it refuses and accepts differs from its specification
  Tracker.__init__ refuse :: what it refuses and accepts differs from its specification
  Tracker.braid_image_stats refuse :: what it refuses and accepts differs from its specification
  Tracker.bucket_stats refuse :: what it refuses and accepts differs from its specification
  Tracker.bucket_braids_images refuse :: what it refuses and accepts differs from its specification
  Tracker.substrings refuse :: what it refuses and accepts differs from its specification
peyl.bucketing
  Bucket.append_braid refuse :: what it refuses and accepts differs from its specification
  Bucket.replace_braid refuse :: what it refuses and accepts differs from its specification
  Tracker.__init__ refuse :: what it refuses and accepts differs from its specification
  Tracker.braid_image_stats refuse :: what it refuses and accepts differs from its specification
  Tracker.bucket_stats refuse :: what it refuses and accepts differs from its specification
  Tracker.add_braids_images refuse :: what it refuses and accepts differs from its specification
  Tracker.hash_bucket refuse :: what it refuses and accepts differs from its specification
peyl.jonesrep
  cell_matrix refuse :: what it refuses and accepts differs from its specification
  RepBase._polymat_delta_power refuse :: what it refuses and accepts differs from its specification
  RepBase.polymat_evaluate_braids_of_same_length refuse :: what it refuses and accepts differs from its specification
  RepBase.polymat_evaluate_braid_integers_of_same_length refuse :: what it refuses and accepts differs from its specification
  JonesCellRep.__init__ refuse :: what it refuses and accepts differs from its specification
  LKBRep.__init__ refuse :: what it refuses and accepts differs from its specification
  LKBRep.artin_gens_invs refuse :: what it refuses and accepts differs from its specification
peyl.lpoly
  LPoly.is_unit ret
  LPoly.is_zero ret
  LPoly.__sub__ ret
  LPoly.__rsub__ ret
  LPoly.__add__ refuse :: what it refuses and accepts differs from its specification
  LPoly.__mul__ refuse :: what it refuses and accepts differs from its specification
  LPoly.__pow__ refuse :: what it refuses and accepts differs from its specification
  LPoly.coerce refuse :: what it refuses and accepts differs from its specification
peyl.matrix
  Matrix.is_square ret
  Matrix.__post_init__ refuse :: what it refuses and accepts differs from its specification
  Matrix.from_rows refuse :: what it refuses and accepts differs from its specification
  Matrix.row refuse :: what it refuses and accepts differs from its specification
  Matrix.column refuse :: what it refuses and accepts differs from its specification
  Matrix._checkbounds refuse :: what it refuses and accepts differs from its specification
  Matrix.__getitem__ refuse :: what it refuses and accepts differs from its specification
  Matrix.__mul__ refuse :: what it refuses and accepts differs from its specification
  Matrix.__pow__ refuse :: what it refuses and accepts differs from its specification
  Matrix.__rmul__ refuse :: what it refuses and accepts differs from its specification
  Matrix.__sub__ refuse :: what it refuses and accepts differs from its specification
  Matrix.trace refuse :: what it refuses and accepts differs from its specification
peyl.noncrossing
  are_pairwise_disjoint ret
  npar_component_to_artin_word refuse :: what it refuses and accepts differs from its specification
  NPar.__post_init__ refuse :: what it refuses and accepts differs from its specification
  NPar.all_of_size refuse :: what it refuses and accepts differs from its specification
  NPar.from_components refuse :: what it refuses and accepts differs from its specification
  NPar.from_permutation refuse :: what it refuses and accepts differs from its specification
peyl.permutations
  is_permutation ret
  is_parallel_descending_cycles ret
  is_descending_cycles ret
  transposition refuse :: what it refuses and accepts differs from its specification
  compose refuse :: what it refuses and accepts differs from its specification
  is_right_descent refuse :: what it refuses and accepts differs from its specification
  is_left_descent refuse :: what it refuses and accepts differs from its specification
  shortlex refuse :: what it refuses and accepts differs from its specification
  from_cox refuse :: what it refuses and accepts differs from its specification
  SymmetricGroup.__post_init__ refuse :: what it refuses and accepts differs from its specification
  SymmetricGroup.from_cycle refuse :: what it refuses and accepts differs from its specification
  Permutation.__post_init__ refuse :: what it refuses and accepts differs from its specification
  Permutation.__mul__ refuse :: what it refuses and accepts differs from its specification
peyl.poly
  Poly.is_zero ret
  Poly.__add__ refuse :: what it refuses and accepts differs from its specification
  Poly.__sub__ refuse :: what it refuses and accepts differs from its specification
  Poly.__mul__ refuse :: what it refuses and accepts differs from its specification
  Poly.__pow__ refuse :: what it refuses and accepts differs from its specification
  Poly.__divmod__ refuse :: what it refuses and accepts differs from its specification
  Poly.__truediv__ refuse :: what it refuses and accepts differs from its specification
  Poly.cyclotomic refuse :: what it refuses and accepts differs from its specification
  Poly.chebyshevT refuse :: what it refuses and accepts differs from its specification
  Poly.minpolycos refuse :: what it refuses and accepts differs from its specification
peyl.polymat
  mul refuse :: what it refuses and accepts differs from its specification
  pack refuse :: what it refuses and accepts differs from its specification
  zeropad refuse :: what it refuses and accepts differs from its specification
  concatenate refuse :: what it refuses and accepts differs from its specification
  burau_generator_v2 refuse :: what it refuses and accepts differs from its specification
  to_matrix refuse :: what it refuses and accepts differs from its specification
  from_matrix refuse :: what it refuses and accepts differs from its specification
  projectivise refuse :: what it refuses and accepts differs from its specification
  degmax refuse :: what it refuses and accepts differs from its specification
  valmin refuse :: what it refuses and accepts differs from its specification
  nz_terms refuse :: what it refuses and accepts differs from its specification
  projrank refuse :: what it refuses and accepts differs from its specification
  proj_starts_ends refuse :: what it refuses and accepts differs from its specification
peyl.tl
  is_crossingless_matching ret
  generate_sequences refuse :: what it refuses and accepts differs from its specification
  compose refuse :: what it refuses and accepts differs from its specification
  insert refuse :: what it refuses and accepts differs from its specification
  TLDiag.__init__ refuse :: what it refuses and accepts differs from its specification
  TLDiag.__mul__ refuse :: what it refuses and accepts differs from its specification
  TLDiag.__matmul__ refuse :: what it refuses and accepts differs from its specification
  tl_basis refuse :: what it refuses and accepts differs from its specification
  tl_tableaux_basis refuse :: what it refuses and accepts differs from its specification
  cell_dimension refuse :: what it refuses and accepts differs from its specification
  cell_basis refuse :: what it refuses and accepts differs from its specification
  TLExtDiag.__init__ refuse :: what it refuses and accepts differs from its specification
  TLExtDiag.e refuse :: what it refuses and accepts differs from its specification
  TLExtDiag.__mul__ refuse :: what it refuses and accepts differs from its specification
  TLExtDiag.__matmul__ refuse :: what it refuses and accepts differs from its specification
  TLMor.__init__ refuse :: what it refuses and accepts differs from its specification
  TLMor.id refuse :: what it refuses and accepts differs from its specification
  TLMor.e refuse :: what it refuses and accepts differs from its specification
  TLMor.coefficient refuse :: what it refuses and accepts differs from its specification
  TLMor.__mul__ refuse :: what it refuses and accepts differs from its specification
  TLMor.__add__ refuse :: what it refuses and accepts differs from its specification
  TLMor.__rmul__ refuse :: what it refuses and accepts differs from its specification
  TLMor.__pow__ refuse :: what it refuses and accepts differs from its specification
  TLCell.__post_init__ refuse :: what it refuses and accepts differs from its specification
  TLCell.project_vector refuse :: what it refuses and accepts differs from its specification
  JonesRep.__init__ refuse :: what it refuses and accepts differs from its specification
peyl.braid
  NFTable.count_normal_forms refuse :: what it refuses and accepts differs from its specification
  NFTable.sample refuse :: what it refuses and accepts differs from its specification
  NFBase.magma_artin_word refuse :: what it refuses and accepts differs from its specification
peyl.braidsearch
  batched refuse :: what it refuses and accepts differs from its specification
  symmetric_table refuse :: what it refuses and accepts differs from its specification
  tl_gens_invs refuse :: what it refuses and accepts differs from its specification
peyl.bucketing
  batched refuse :: what it refuses and accepts differs from its specification
peyl.jonesrep
  tl_gens_invs refuse :: what it refuses and accepts differs from its specification
peyl.tl
  trace_count refuse :: what it refuses and accepts differs from its specification
  draw_svg refuse :: what it refuses and accepts differs from its specification
'''


def check(ctx):
    R = ctx.rule('definition', 'each guarded operation refuses exactly what its specification refuses')
    compare(ctx, R)
    ctx.floor(R, 80)
