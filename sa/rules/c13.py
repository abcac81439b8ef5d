"""C13: the exponent sum of a braid is conserved (canonical terms, E2)."""
from ..spec import compare

EXPLAIN = ('Value numbering of each operation gives what it yields, changes and refuses as canonical terms (loops named by what they run over, helpers inlined, locals gone, conditions as ordered decision diagrams); '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.braid
  NFTable.normalise_factors ret
  NFTable.product_normalised_factors ret
  PermTable.create ret
  NParTable.create ret
  NFBase.identity ret
  NFBase.artin_gens ret
  NFBase.canonical_factors ret
  NFBase.canonical_factor ret
  NFBase.canonical_decomposition ret
  NFBase.canonical_length ret
  NFBase.inf ret
  NFBase.sup ret
  NFBase.__mul__ ret
  NFBase.inv ret
  NFBase.__pow__ ret
  NFBase.artin_word ret
  NFBase.magma_artin_word ret
  NFBase.substring ret
  NFBase.nf_descendants ret
  NFBase.nf_suffixes ret
  NFBase.all_of_length ret
  NFBase.sample ret
  GNF.from_perm ret
  GNF.from_perm_seq ret
  GNF.from_artin_word ret
  GNF._factors_to_DGNF ret
  GNF.to_DGNF ret
  GNF.garside_length ret
  DGNF.from_npar ret
  DGNF.bkl_gens ret
  DGNF.from_npar_seq ret
  DGNF.from_artin_word ret
  DGNF._factors_to_GNF ret
  DGNF.to_GNF ret
  BraidGroup.id ret
  BraidGroup.gens ret
  BraidGroup.bkl_gens ret
  BraidGroup.invs ret
  BraidGroup.positive_lift ret
  BraidGroup.from_npar ret
  BraidGroup.from_gnf_pair ret
  BraidGroup.all_of_garside_length ret
peyl.noncrossing
  bkl_gen_to_artin_word ret
  npar_component_to_artin_word ret
  NPar.artin_word ret
peyl.permutations
  shortlex ret
  Permutation.artin_word ret
  Permutation.shortlex ret
peyl.jonesrep
  tl_gens_invs ret
  cell_matrices ret
  RepBase.evaluate_artin_word ret
  RepBase.evaluate ret
  RepBase._polymat_braid_factor ret
  RepBase._polymat_delta_power ret
  RepBase.polymat_evaluate_artin_word ret
  RepBase.polymat_evaluate ret
  RepBase.polymat_evaluate_braid ret
  RepBase.polymat_evaluate_braids_of_same_length ret
  RepBase.polymat_evaluate_braid_integers_of_same_length ret
peyl.braidsearch
  symmetric_table ret
  evaluate_braid_factors ret
  evaluate_braids_of_same_length ret
  evaluate_prefixes_of_same_length ret
peyl.braidsearch
  tl_gens_invs ret
  cell_matrices ret
'''


def check(ctx):
    R = ctx.rule('definition', 'letters and powers are conserved as specified')
    compare(ctx, R)
    ctx.floor(R, 50)
