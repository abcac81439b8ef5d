"""C17: what is displayed is what the object holds (canonical terms of the displayed text, E2)."""
from ..spec import compare

EXPLAIN = ('Value numbering of each display method gives the displayed text as a canonical term: its pieces in order, which field or element each piece shows, over which range, under which condition and in which format; '
           'these are compared with the terms of the reference definition. Equal: discharged; a local difference in an otherwise equal form: violation; another shape: undecided.')
ASSUME = ['Library calls behave as documented.', 'A definition written in a form whose canonical terms differ widely is counted as undecided.']

SPECS = '''
peyl.braid
  GNF.__repr__ ret
  GNF._repr_latex_ ret
  DGNF.__repr__ ret
  DGNF._repr_latex_ ret
peyl.braidsearch
  JonesSummand.__repr__ ret
peyl.jonesrep
  JonesCellRep.__repr__ ret
peyl.lpoly
  LPoly.__repr__ ret
  LPoly.fmt ret
  LPoly._repr_latex_ ret
peyl.matrix
  Matrix.__repr__ ret
  Matrix._repr_latex_ ret
  Matrix.__str__ ret
peyl.noncrossing
  NPar.__repr__ ret
  NPar._repr_latex_ ret
peyl.permutations
  Permutation._repr_latex_ ret
peyl.poly
  Poly.__repr__ ret
peyl.tl
  TLDiag._repr_html_ ret
  TLMor._repr_html_ ret
  draw_svg ret
peyl.show
  Row.__init__ effects
  Row._repr_html_ ret
  FramedMatrix.__init__ effects
  FramedMatrix._repr_html_ ret
  Latex.__init__ effects
  Latex._repr_latex_ ret
  html_repr ret
'''


def check(ctx):
    R = ctx.rule('definition', 'the displayed text shows what the object holds')
    compare(ctx, R)
    ctx.floor(R, 20)
