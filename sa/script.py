"""Facts about the search script, drawn from the value-numbered events of its main function and of the script itself."""
import re
from .canon import Canon
from .vn import subterms, items
from .spec import run
from .front import AnalysisBroken, SCRIPT


class Script:
    def __init__(self, ctx):
        self.ctx = ctx
        self.main = self.value('search.main', ())
        self.script = self.value('search.' + SCRIPT, ('search.main',))
        if self.main is None or self.script is None:
            raise AnalysisBroken('search.main has vanished')
        self.cm, self.cs = Canon(self.main), Canon(self.script)

    def value(self, name, keep):
        f = self.ctx.prog.func(name)
        if f is None:
            return None
        return run(self.ctx, f, keep=keep)

    def calls(self, which, *suffix):
        r = self.main if which == 'main' else self.script
        return [e for e in r.events if e.kind == 'call' and (e.name in suffix or any(e.name.endswith(s) for s in suffix if s.startswith('.')))]

    def kinds(self):
        """The steps of the search in program order: (kind, event)."""
        out = []
        for e in self.main.events:
            if e.kind == 'call':
                k = None
                if e.name.endswith('Tracker.nf_descendants'):
                    k = 'expand'
                elif e.name.endswith('Tracker.discard_bucket'):
                    k = 'discard'
                elif e.name.endswith('Tracker.bootstrap_exhaustive'):
                    k = 'bootstrap'
                elif e.name.endswith(('.execute', '.executemany', '.executescript')):
                    sql = self.sql(self.cm, e)
                    k = 'begin' if re.match(r'\s*BEGIN', sql, re.I) else 'insert' if re.match(r'\s*INSERT', sql, re.I) else 'commit' if re.match(r'\s*(COMMIT|END)\b', sql, re.I) else 'rollback' if re.match(r'\s*ROLLBACK', sql, re.I) else 'sql'
                elif e.name.endswith('.commit'):
                    k = 'commit'
                elif e.name.endswith('.rollback'):
                    k = 'rollback'
                elif e.name == 'print' and self.held(e):
                    k = 'report'
                if k:
                    out.append((k, e))
            elif e.kind == 'break':
                out.append(('break', e))
            elif e.kind == 'return' and e.loops():
                out.append(('break', e))
        return out

    def held(self, e):
        """Whether a print stands in a loop over the braids of a bucket."""
        for l in e.loops():
            L = self.main.loops.get(l)
            if L is not None and L.kind != 'while' and 'bucket_braids' in repr(self.cm.lname(l)):
                return True
        return False

    def sql(self, cn, e):
        a = e.term[2] if len(e.term) > 2 else ()
        a = [v for k, v in a if k != 'self']
        if a and a[0][0] == 'c' and isinstance(a[0][1], str):
            return a[0][1]
        return ''

    def depth(self, e):
        """The outermost loop an event stands in."""
        ls = e.loops()
        return ls[0] if ls else None


def schema(text):
    m = re.search(r'CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?(\w+)\s*\((.*)\)', text, re.I | re.S)
    if not m:
        return None
    cols = []
    d, cur = 0, ''
    for ch in m.group(2) + ',':
        if ch == ',' and d == 0:
            w = cur.split()
            if w and w[0].upper() not in ('PRIMARY', 'UNIQUE', 'FOREIGN', 'CHECK', 'CONSTRAINT'):
                cols.append((w[0].strip('"`[]'), w[1].upper() if len(w) > 1 else ''))
            cur = ''
            continue
        d += (ch == '(') - (ch == ')')
        cur += ch
    return m.group(1), cols


def insert(text):
    m = re.match(r'\s*INSERT\s+(?:OR\s+\w+\s+)?INTO\s+(\w+)\s*(?:\(([^)]*)\))?\s*VALUES\s*\(([^)]*)\)', text, re.I | re.S)
    if not m:
        return None
    names = [x.strip() for x in m.group(2).split(',')] if m.group(2) else None
    return m.group(1), names, [x.strip() for x in m.group(3).split(',')]
