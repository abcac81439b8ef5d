"""C10: the search reports, saves and expands before it forgets (event order and canonical effects of the search script, E2)."""
from ..spec import compare
from ..script import Script
from ..vn import subterms, items
from ..canon import words

EXPLAIN = ('The steps of the search (report, save, expand, discard, stop) are taken in program order from the value-numbered events of the main function, helpers inlined, and their order, loops and conditions are checked; '
           'the selections they work on, the range of lengths and the values of the options they use are compared with the reference definition by canonical terms. '
           'Every option declared is traced to its use: type, flag action and the place its value ends up in.')
ASSUME = ['pandas selection, sorting and cumulative sums behave as documented.', 'A form outside the recognised ones is counted as undecided.']

SPECS = '''
search
  main effects words=.bootstrap_exhaustive,random.Random :: what the search starts from differs from what is specified
  main effects words=.nf_descendants :: what is expanded differs from what is specified
  main effects words=.discard_bucket :: what is discarded differs from what is specified
  main effects words=.executemany :: what is saved differs from what is specified
  main reports :: what is reported as found differs from what is specified
  main halts :: when the search stops differs from what is specified
  main news words=.Tracker,.JonesSummand,.BraidGroup :: the search is set up otherwise than specified
  script__ options :: an option is declared otherwise than specified
  script__ refuse :: the options are accepted or refused otherwise than specified
  script__ effects words=.connect,search.main :: the database option is used otherwise than specified
'''

INT = ('n', 'r', 'p', 'bootstrap_length', 'bucket_size', 'use_best', 'save_best', 'step_size', 'seed')


def order(ctx, R, s):
    ks = s.kinds()
    pos = {}
    for i, (k, e) in enumerate(ks):
        pos.setdefault(k, []).append((i, e))
    disc = pos.get('discard', [])
    for k, what in (('report', 'projlen-1 braids are reported'), ('insert', 'the selection is saved'), ('expand', 'the selection is expanded')):
        if not pos.get(k):
            ctx.undecided(R, k, 'not found')
            continue
        for i, e in pos[k]:
            late = [d for j, d in disc if j < i and s.depth(d) == s.depth(e)]
            if late:
                ctx.violate(R, f'{k} before discard', late[0].loc(), f'buckets are discarded before {what}')
            else:
                ctx.ok(R, f'{what} before buckets are discarded')
    for i, e in pos.get('break', []):
        reps = [j for j, x in pos.get('report', []) if s.depth(x) == s.depth(e)]
        if not e.loops() or len(e.loops()) > 1 or not reps:
            continue
        if any(j > i for j in reps):
            ctx.violate(R, 'stop after report', e.loc(), 'the search can stop before what it found is reported')
        else:
            ctx.ok(R, 'stops only after reporting')
    for i, e in pos.get('break', []):
        ls = e.loops()
        if not ls or e.kind == 'break' and len(ls) > 1:
            continue
        late = [x for j, x in pos.get('insert', []) if j > i and s.depth(x) == s.depth(e)]
        if late:
            ctx.violate(R, 'stop after saving', e.loc(), 'the search can stop before the selection of the step is saved')
        elif pos.get('insert'):
            ctx.ok(R, 'stops only after saving')
    if pos.get('report') and pos.get('expand') and pos['report'][-1][0] > pos['expand'][0][0]:
        # what an expansion finds is reported in the next step, which may not come: that is how the search ends
        pass
    if disc and pos.get('expand'):
        for i, e in pos['expand']:
            if s.depth(e) is None or any(s.depth(d) != s.depth(e) for _, d in disc):
                ctx.undecided(R, 'loops', 'expansion and discarding in different loops')


def sinks(ctx, R, s):
    """Where the value of each option ends up."""
    main, cm = s.main, s.cm
    got = {}

    def note(t, where):
        for y in subterms(t):
            if y[0] == 'attr' and isinstance(y[2], str) and y[1][0] in ('glob', 'call', 'p') and (y[1][0] != 'call' or y[1][1].endswith('parse_args')) and (y[1][0] == 'call' or 'args' in repr(y[1])):
                got.setdefault(y[2], set()).add(where)
    for e in main.events:
        if e.kind == 'new' and e.name.endswith('JonesSummand'):
            for k, v in e.term[2]:
                if k in ('n', 'r', 'p'):
                    if v[0] == 'attr' and v[2] in ('n', 'r', 'p') and v[2] != k:
                        ctx.violate(R, f'option {v[2]}', e.loc(), f'the representation is given {v[2]} for its {k}')
                    elif v[0] == 'attr' and v[2] == k:
                        ctx.ok(R, f'{k}: parameter {k} of the representation')
                    else:
                        ctx.undecided(R, f'option {k}', words(cm.t(v))[:80])


def check(ctx):
    R = ctx.rule('definition', 'set-up, selections, range of lengths, stopping and options are as specified')
    O = ctx.rule('order', 'report, save and expand before discarding; stop after reporting')
    S = ctx.rule('options', 'each option reaches the place its help text names')
    compare(ctx, R)
    s = Script(ctx)
    order(ctx, O, s)
    sinks(ctx, S, s)
    ctx.floor(R, 6)
    ctx.floor(O, 2)
