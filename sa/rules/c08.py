"""C08: dimensions, index ranges and composition order agree (canonical terms, E2)."""
from ..spec import compare

EXPLAIN = ('Value numbering of each operation gives what it yields, changes and refuses as canonical terms (loops named by what they run over, helpers inlined, locals gone, conditions as ordered decision diagrams); '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.matrix
  Matrix.indices ret
  Matrix.from_rows ret
  Matrix.identity ret
  Matrix.zero ret
  Matrix.row_vector ret
  Matrix.col_vector ret
  Matrix.col_coord_vector ret
  Matrix.scalar ret
  Matrix.row ret
  Matrix.column ret
  Matrix.rows ret
  Matrix.__getitem__ ret
  Matrix.__mul__ ret
  Matrix.__pow__ ret
  Matrix.__rmul__ ret
  Matrix.__sub__ ret
  Matrix.trace ret
  Matrix.is_square ret
  Matrix.is_symmetric ret
  Matrix.transpose ret
  Matrix.entries ret
  Matrix.map ret
peyl.matrix
  Matrix._checkbounds refuse
peyl.tl
  is_crossingless_matching ret
  compose ret
  trace_count ret
  insert ret
  TLDiag.id ret
  TLDiag.__mul__ ret
  TLDiag.__matmul__ ret
  TLDiag.flip ret
  through_strands ret
  tl_basis ret
  tl_tableaux_basis ret
  cell_dimension ret
  cell_basis ret
  TLExtDiag.id ret
  TLExtDiag.e ret
  TLExtDiag.add_bubbles ret
  TLExtDiag.split_bubbles ret
  TLExtDiag.__mul__ ret
  TLExtDiag.__matmul__ ret
  TLMor.id ret
  TLMor.e ret
  TLMor.basis ret
  TLMor.from_tldiag ret
  TLMor.quotient ret
  TLMor.trace ret
  TLMor.__mul__ ret
  TLMor.__add__ ret
  TLMor.flip ret
  TLMor.__neg__ ret
  TLMor.__rmul__ ret
  TLCell.dim ret
  TLCell.basis_diagrams ret
  TLCell.project_vector ret
  TLCell.project_leftmult_matrix ret
peyl.tl
  generate_sequences yields
peyl.tl
  TLDiag.__init__ effects
  TLExtDiag.__init__ effects
  TLMor.__init__ effects
  JonesRep.__init__ effects
peyl.permutations
  identity ret
  is_identity ret
  transposition ret
  longest_element ret
  is_longest_element ret
  disjoint_cycles ret
  inverse ret
  compose ret
  right_descent_set ret
  is_right_descent ret
  left_descent_set ret
  is_left_descent ret
  length ret
  parity ret
  cycle_type ret
  shortlex ret
  from_cox ret
  is_descending_cycles ret
  is_parallel_descending_cycles ret
  SymmetricGroup.id ret
  SymmetricGroup.longest_element ret
  SymmetricGroup.cox_gens ret
  SymmetricGroup.reflections ret
  SymmetricGroup.from_cox ret
  SymmetricGroup.from_cycle ret
  SymmetricGroup.from_cycles ret
  SymmetricGroup.elements ret
  Permutation.inv ret
  Permutation.__mul__ ret
  Permutation.disjoint_cycles ret
peyl.noncrossing
  NPar.finest ret
  NPar.coarsest ret
  NPar.all_of_size ret
  NPar.from_components ret
  NPar.from_permutation ret
  NPar.to_permutation ret
  NPar.components ret
  NPar.edges ret
  NPar.left_complement ret
  NPar.right_complement ret
  bkl_gen_to_artin_word ret
  npar_component_to_artin_word ret
peyl.polymat
  eye ret
  mul ret
  pack ret
  zeropad ret
  concatenate ret
  burau_generator_v2 ret
  to_matrix ret
  from_matrix ret
peyl.jonesrep
  cell_matrix ret
  RepBase.id ret
  RepBase.polymat_id ret
  JonesCellRep.dimension ret
  LKBRep.dimension ret
  JonesCellRep.tl_basis ret
  LKBRep.artin_gens_invs ret
peyl.braidsearch
  cell_matrix ret
  JonesSummand.dimension ret
  JonesSummand.id ret
peyl.tl
  TLMor.__sub__ ret
peyl.permutations
  Permutation.group ret
'''


def check(ctx):
    R = ctx.rule('definition', 'positions, index ranges and orders of composition are as specified')
    compare(ctx, R)
    ctx.floor(R, 100)
