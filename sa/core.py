"""Common ground of the rules: findings, counts, verdicts, known findings and evidence."""
from __future__ import annotations
import json, os, re, time
from . import front
from .front import AnalysisBroken, Program

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Ctx:
    """One run of one property's rules over the current source."""

    def __init__(self, pid):
        self.pid = pid
        self.findings = {}        # key -> dict
        self.rules = {}           # rule -> {'text':, 'obligations':, 'discharged':, 'undecided': [...]}
        self.samples = []
        self._prog = self._an = self._sx = None
        self.t0 = time.time()

    @property
    def prog(self):
        if self._prog is None:
            from . import spec
            extra, imports = spec.load(self.pid)
            self._prog = Program(extra=extra, imports=imports)
        return self._prog

    @property
    def an(self):
        """E1: effects, aliases, dependences (built on demand)."""
        if self._an is None:
            from .flow import Analyzer
            from . import spec
            a = Analyzer(self.prog)
            a.twins = spec.twins(self.prog)
            self._an = a.run()
        return self._an

    def rule(self, name, text):
        self.rules.setdefault(name, {'text': text, 'obligations': 0, 'discharged': 0, 'undecided': []})
        return name

    def ok(self, rule, what=None):
        r = self.rules[rule]
        r['obligations'] += 1
        r['discharged'] += 1
        if what and sum(1 for s in self.samples if s.startswith(rule + ':')) < 4:
            self.samples.append(f'{rule}: {what}')

    def undecided(self, rule, what, why=''):
        r = self.rules[rule]
        r['obligations'] += 1
        r['undecided'].append(f'{what}: {why}' if why else what)

    def violate(self, rule, key, loc, msg):
        """key identifies the construct (no line numbers), so that a known finding stays the same finding."""
        self.rules[rule]['obligations'] += 1
        k = f'{rule}|{key}'
        self.findings.setdefault(k, {'rule': rule, 'key': k, 'where': loc, 'what': msg})

    def floor(self, rule, n):
        """The rule must have met at least n instances, or the analysis has lost its object."""
        got = self.rules[rule]['obligations']
        if got < n:
            raise AnalysisBroken(f'{self.pid}/{rule}: only {got} instances found, expected at least {n}')


def known(pid):
    """Entries `KNOWN-FINDING: property=Cxx key=<key> :: <text>` of known_findings.txt."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(.+?) :: (.*)$', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def finish(ctx, explain, assumptions):
    kn = known(ctx.pid)
    new = [f for k, f in ctx.findings.items() if k not in kn]
    old = [k for k in ctx.findings if k in kn]
    evdir = os.environ.get('VERIF_EVDIR') or os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    p = ctx.prog
    ob = sum(r['obligations'] for r in ctx.rules.values())
    di = sum(r['discharged'] for r in ctx.rules.values())
    ev = {
        'property': ctx.pid, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': explain,
            'modules': len(p.modules), 'functions': len(p.funcs), 'classes': len(p.all_classes),
            'source_lines': sum(m.src.count('\n') for m in p.modules.values()),
            'obligations': ob, 'discharged': di,
            'undecided': sum(len(r['undecided']) for r in ctx.rules.values()),
            'rules': [{'rule': k, 'text': r['text'], 'instances': r['obligations'], 'discharged': r['discharged'],
                       'undecided': r['undecided'][:40]} for k, r in ctx.rules.items()],
            'samples': ctx.samples[:24],
            'known_findings': old,
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(evdir, f'{ctx.pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for k in old:
        print(f'KNOWN-FINDING: property={ctx.pid} {kn[k]}')
    rp = os.path.join(evdir, f'{ctx.pid}.findings.json')
    if new:
        with open(rp, 'w') as fh:
            json.dump(new, fh, indent=1)
        for f in new:
            print(f'  {f["where"]}: [{f["rule"]}] {f["what"]}')
        print(f'VIOLATION property={ctx.pid} replay=evidence/{ctx.pid}.findings.json')
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print(f'{ctx.pid}: held; {ob} obligations, {di} discharged, '
          f'{sum(len(r["undecided"]) for r in ctx.rules.values())} undecided, {ev["wall_s"]} s')
    return 0
