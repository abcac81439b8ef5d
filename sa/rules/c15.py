"""C15: every coefficient stays at its degree (canonical terms, E2)."""
from ..spec import compare

EXPLAIN = ('Value numbering of each operation gives what it yields, changes and refuses as canonical terms (loops named by what they run over, helpers inlined, locals gone, conditions as ordered decision diagrams); '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.lpoly
  LPoly.evaluate ret
  LPoly.valuation ret
  LPoly.degree ret
  LPoly.__add__ ret
  LPoly.__sub__ ret
  LPoly.__rsub__ ret
  LPoly.__neg__ ret
  LPoly.__mul__ ret
  LPoly.__pow__ ret
  LPoly.__truediv__ ret
  LPoly.map ret
  LPoly.coerce ret
  LPoly.quantum_integer ret
  LPoly.is_zero ret
  LPoly.is_unit ret
peyl.lpoly
  LPoly.__init__ effects
peyl.poly
  Poly.__init__ effects
peyl.poly
  Poly.deg ret
  Poly.is_zero ret
  Poly.evaluate ret
  Poly.__add__ ret
  Poly.__sub__ ret
  Poly.__neg__ ret
  Poly.__mul__ ret
  Poly.__pow__ ret
  Poly.__divmod__ ret
  Poly.__truediv__ ret
  Poly.cyclotomic ret
  Poly.chebyshevT ret
  Poly.minpolycos ret
peyl.polymat
  trim ret
  trim_left ret
  mul ret
  pack ret
  zeropad ret
  concatenate ret
  to_matrix ret
  from_matrix ret
  projectivise ret
  degmax ret
  valmin ret
  nz_terms ret
  projrank ret
  proj_starts_ends ret
  burau_generator_v2 ret
peyl.tl
  TLMor.flip ret
  TLMor.__mul__ ret
  TLMor.__add__ ret
  TLMor.trace ret
peyl.bucketing
  Tracker.add_braids_images effects
'''


def check(ctx):
    R = ctx.rule('definition', 'coefficients are placed at their degrees as specified')
    compare(ctx, R)
    ctx.floor(R, 45)
