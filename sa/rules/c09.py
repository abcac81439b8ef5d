"""C09: what is stored in the database is what was selected (events of the search script, its SQL text, and the text form of braids)."""
from ..spec import compare
from ..script import Script, schema, insert
from ..vn import subterms, items
from ..canon import words

EXPLAIN = ('The events of the search (value-numbered, in program order) are matched with the SQL text they send: the columns of the table against the placeholders and the parts of each row, '
           'the key of the bucket a row comes from against its length and projlen columns, BEGIN before the rows before the commit before anything is expanded or discarded, and close in a finally around the search. '
           'The adapters and the whole sequence of database effects are compared with reference definitions by canonical terms.')
ASSUME = ['sqlite3 behaves as documented.', 'A form outside the recognised ones is counted as undecided.']

SPECS = '''
search
  main effects words=.execute,.executemany,.commit,.rollback,.executescript :: the selection is not saved as specified
  script__ effects words=.connect,.close,.execute,.executescript,search.main :: the database is not opened, used and closed as specified
peyl.braid
  adapt_braid ret :: the text form of a braid is not as specified
  convert_braid ret :: the text form is not read back as specified
  register_sqlite3_adapters effects :: adapters and converters are not registered as specified
'''


def last(t):
    """The field a term reads."""
    while True:
        if t[0] == 'call' and t[1] in ('int', 'str', 'float') and len(t[2]) == 1:
            t = t[2][0][1]
        elif t[0] == 'fstr' and len(t[1]) == 1 and t[1][0][0] == 'fmt' and t[1][0][3] == ('c', None):
            t = t[1][0][1]
        else:
            return t


def columns(ctx, R, s):
    tables = {}
    for which, cn, r in (('script', s.cs, s.script), ('main', s.cm, s.main)):
        for e in s.calls(which, '.execute', '.executescript'):
            x = schema(s.sql(cn, e))
            if x:
                tables[x[0]] = x[1]
    keys = None
    for e in s.main.events:
        if e.kind == 'new' and e.name.endswith('Tracker'):
            k = [v for n, v in e.term[2] if n == 'bucket_keys']
            if k and items(k[0]) is not None and all(x[0] == 'c' for x in items(k[0])):
                keys = [x[1] for x in items(k[0])]
    for k, e in s.kinds():
        if k != 'insert':
            continue
        x = insert(s.sql(s.cm, e))
        if x is None or x[0] not in tables and tables:
            if x is not None:
                ctx.violate(R, 'table', e.loc(), f'rows are inserted into {x[0]}, the table created is {", ".join(tables)}')
            else:
                ctx.undecided(R, 'insert', 'SQL text not understood')
            continue
        if not tables:
            ctx.undecided(R, 'insert', 'no table definition found')
            continue
        cols = [c for c, _ in tables[x[0]]]
        names = x[1] or cols
        if set(names) - set(cols):
            ctx.violate(R, 'columns', e.loc(), f'INSERT names columns {sorted(set(names) - set(cols))}, which {x[0]} does not have')
            continue
        if len(x[2]) != len(names) or x[1] is None and len(x[2]) != len(cols):
            ctx.violate(R, 'placeholders', e.loc(), f'{len(x[2])} placeholders for {len(names)} columns')
            continue
        ctx.ok(R, f'{len(names)} columns, {len(x[2])} placeholders')
        if any(p != '?' for p in x[2]):
            ctx.undecided(R, 'insert', 'named or literal placeholders')
            continue
        a = [v for n, v in e.term[2] if n != 'self']
        if len(a) < 2:
            ctx.undecided(R, 'insert', 'no rows')
            continue
        data = s.cm.t(a[1])
        many = e.name.endswith('executemany')
        row, src = (data[3], data[2]) if many and data[0] == 'comp' else (data, None)
        if many and data[0] != 'comp' or row[0] != 'seq':
            ctx.undecided(R, 'insert', 'rows not understood')
            continue
        row = row[1]
        if len(row) != len(names):
            ctx.violate(R, 'row', e.loc(), f'rows of {len(row)} values for {len(names)} columns')
            continue
        key = None
        for y in subterms(data):
            if y[0] == 'idx' and y[1][0] == 'attr' and y[1][2] == 'bucket_braids':
                key = y[2]
        ks = [last(z) for z in key[1]] if key is not None and key[0] == 'seq' else None
        for n, v in zip(names, row):
            w = last(v)
            if n in ('n', 'r', 'p'):
                if w[0] == 'attr' and w[2] in ('n', 'r', 'p'):
                    if w[2] != n:
                        ctx.violate(R, f'column {n}', e.loc(), f'column {n} is given {words(v)}')
                    else:
                        ctx.ok(R, f'column {n}')
                else:
                    ctx.undecided(R, f'column {n}', words(v)[:80])
            elif n in ('length', 'projlen') and ks and keys and len(ks) == len(keys):
                if w in ks and keys[ks.index(w)] in ('length', 'projlen'):
                    if keys[ks.index(w)] != n:
                        ctx.violate(R, f'column {n}', e.loc(), f'column {n} is given the {keys[ks.index(w)]} of the bucket')
                    else:
                        ctx.ok(R, f'column {n}: that of the bucket the braid is in')
                else:
                    ctx.undecided(R, f'column {n}', words(v)[:80])
            elif n == 'gnf':
                if v != w and w[0] == 'call' and w[1] == 'dataclasses.astuple':
                    el = w[2][0][1]
                    if 'bucket_braids' in repr(el) or el[0] == 'iv' or 'bucket_braids' in repr(src):
                        ctx.ok(R, 'column gnf: the normal form of a braid of the bucket')
                    else:
                        ctx.undecided(R, 'column gnf', words(v)[:80])
                elif w[0] in ('c', 'seq') or w in (ks or ()) or w[0] == 'attr' and w[2] in ('n', 'r', 'p'):
                    ctx.violate(R, 'column gnf', e.loc(), f'column gnf is given {words(v)[:100]}')
                else:
                    ctx.undecided(R, 'column gnf', words(v)[:80])


def order(ctx, R, s):
    ks = s.kinds()
    pos = {}
    for i, (k, e) in enumerate(ks):
        pos.setdefault(k, []).append((i, e))
    ins = pos.get('insert', [])
    if not ins:
        ctx.undecided(R, 'order', 'no rows are written')
        return
    begins, commits = pos.get('begin', []), pos.get('commit', [])
    auto = any('isolation_level' in repr(e.term) or 'autocommit' in repr(e.term) for e in s.calls('script', 'sqlite3.connect'))
    withconn = any(f[0] == 'with' and 'conn' in repr(f) for _, e in ins for f in e.ctx)
    if withconn:
        ctx.undecided(R, 'order', 'rows are written in a with block of the connection')
        return
    if not commits:
        (ctx.undecided if auto else lambda R, k, w: ctx.violate(R, 'commit', ins[0][1].loc(), 'rows are written and never committed'))(R, 'commit', 'autocommit')
        return
    main = s.depth(ins[0][1])
    for i, e in ins:
        # the commit that follows in the same step
        after = [(j, c) for j, c in commits if j > i]
        if not after:
            ctx.violate(R, 'commit after rows', e.loc(), 'the commit comes before the rows it should commit')
            continue
        j, c = after[0]
        if main is not None and s.depth(c) != main:
            ctx.violate(R, 'commit in step', c.loc(), 'the rows of a step are not committed within the step')
            continue
        between = [k for k, _ in ks[i + 1:j] if k in ('expand', 'discard', 'break', 'rollback')]
        if between:
            ctx.violate(R, 'commit before going on', c.loc(), f'the search goes on ({between[0]}) before the rows are committed')
            continue
        extra = [f for f in c.ctx if f[0] == 'if' and f not in e.ctx]
        if extra and not any(repr(x[1]) in repr(e.ctx) for x in extra):
            ctx.violate(R, 'commit always', c.loc(), f'the commit happens only if {words(s.cm.cond(extra[0][1]))[:100]}')
            continue
        ctx.ok(R, 'rows are committed within the step')
        inner = [f for f in c.ctx if f[0] == 'loop' and f in e.ctx and f[1] != main]
        before = [(q, b) for q, b in begins if q < i]
        if not begins:
            ctx.undecided(R, 'begin', 'the transaction is opened implicitly')
        elif not before:
            ctx.violate(R, 'begin before rows', begins[0][1].loc(), 'the transaction begins after the rows are written')
        else:
            q, b = before[-1]
            bl, cl = b.loops(), c.loops()
            if main is not None and s.depth(b) != main:
                ctx.violate(R, 'begin in step', b.loc(), 'one transaction is opened for several commits')
            elif bl != cl:
                ctx.violate(R, 'begin and commit', b.loc(), 'the transaction is begun and committed in different loops')
            elif len(bl) > 1:
                ctx.violate(R, 'one transaction', b.loc(), 'the rows of a step are written in several transactions')
            else:
                ctx.ok(R, 'one transaction a step')


def closed(ctx, R, s):
    opened = s.calls('script', 'sqlite3.connect')
    if not opened:
        ctx.undecided(R, 'connect', 'no connection opened')
        return
    runs = [e for e in s.script.events if e.kind == 'call' and e.name.endswith('search.main') and 'sqlite3.connect' in repr(e.term[2])]
    closes = s.calls('script', '.close')
    if any(f[0] == 'with' for e in runs for f in e.ctx):
        ctx.undecided(R, 'close', 'the connection is closed by a context manager')
        return
    if not runs:
        ctx.violate(R, 'search with database', opened[0].loc(), 'a connection is opened and the search is not given it')
        return
    if not closes:
        # closed within main?
        inner = [e for e in s.main.events if e.kind == 'call' and e.name.endswith('.close')]
        (ctx.undecided(R, 'close', 'closed elsewhere') if inner else ctx.violate(R, 'close', opened[0].loc(), 'the connection is never closed'))
        return
    for e in runs:
        ok = any(any(f[0] == 'finally' for f in c.ctx) for c in closes) and any(f[0] == 'try' for f in e.ctx)
        if ok:
            ctx.ok(R, 'the search runs in a try whose finally closes the connection')
        else:
            ctx.violate(R, 'close always', closes[0].loc(), 'the connection is closed only when the search ends without an exception')


def written(t, braid, fields, alias=()):
    """The fields a text form lists, in order; None if it is not understood."""
    out = []
    todo = [t]
    while todo:
        x = todo.pop(0)
        if x[0] == 'fstr':
            todo = list(x[1]) + todo
        elif x[0] == 'fmt':
            if x[1] == braid:
                return None
            todo.insert(0, x[1])
        elif x[0] == 'cat' or x[0] == 'seq':
            todo = list(x[1]) + todo
        elif x[0] == 'op' and x[1] == '+':
            todo = [x[2], x[3]] + todo
        elif x[0] == 'call' and x[1] in ('str', 'repr') and len(x[2]) == 1 and x[2][0][1] != braid:
            todo.insert(0, x[2][0][1])
        elif x[0] == 'call' and x[1] == 'dataclasses.astuple' and x[2][0][1] == braid:
            out += fields
        elif x[0] == 'attr' and x[1] == braid and x[2] in fields:
            out.append(x[2])
        elif x[0] == 'c' or x[0] == 'attr' and x[2] in ('__name__', '__qualname__', '__class__'):
            pass
        else:
            return None
    return out


def news(t, conds=()):
    """(constructor call, prefixes of the text tested on the way) in a result."""
    if t[0] == 'dt':
        yield from news(t[2], conds + ((True, t[1]),))
        yield from news(t[3], conds + ((False, t[1]),))
    elif t[0] == 'new':
        yield t, conds


def roundtrip(ctx, R):
    from ..spec import run
    from ..canon import Form
    p = ctx.prog
    put, get = p.func('braid.adapt_braid'), p.func('braid.convert_braid')
    if put is None or get is None:
        ctx.undecided(R, 'text form', 'adapter or converter is no longer there')
        return
    cl = {c.qual: c for c in p.all_classes}
    fields = [x[0] for x in cl['peyl.braid.GNF'].fields()] if 'peyl.braid.GNF' in cl else []
    A, r = run(ctx, put), run(ctx, get)
    if A is None or r is None or not fields:
        ctx.undecided(R, 'text form', 'not analysable')
        return
    order = written(Form(A).ret(), ('p', put.params[0]), fields)
    if order is None or not order:
        ctx.undecided(R, 'text form', 'the fields it lists are not known')
        return
    for f in fields:
        if order.count(f) != 1:
            ctx.violate(R, f'text|{f}', put.loc(), f'{put.short}: the text form lists {f} {order.count(f)} times')
            return
    got = 0
    for t, conds in news(Form(r).ret()):
        name = t[1].split('.')[-1]
        got += 1
        src = {}
        if len(t[2]) == 1 and t[2][0][1][0] == 'star':
            src, base = {f: i for i, f in enumerate(fields)}, t[2][0][1][1]
        else:
            base = None
            for i, (n, v) in enumerate(t[2]):
                n = fields[n] if isinstance(n, int) and n < len(fields) else n
                while v[0] == 'call' and v[1] in ('int', 'tuple') and len(v[2]) == 1:
                    v = v[2][0][1]
                if v[0] == 'idx' and v[2][0] == 'c' and isinstance(v[2][1], int) and (base is None or v[1] == base):
                    src[n], base = v[2][1] % len(fields), v[1]
        if base is None or set(src) != set(fields):
            ctx.undecided(R, f'text form of {name}', 'not read back field by field')
            continue
        bad = [f for f in fields if order[src[f]] != f]
        if bad:
            ctx.violate(R, f'{name}|fields', get.loc(), f'{get.short}: field {bad[0]} of a {name} is read from where the text form has {order[src[bad[0]]]}')
            continue
        ctx.ok(R, f'{name}: each of {", ".join(fields)} is read from where it is written')
        pre = [x[1][2] for k, x in conds if k and x[0] == 'true' and x[1][0] == 'call' and x[1][1] == '.startswith']
        pre = [dict(a).get(0, ('?',)) for a in pre]
        if len(pre) == 1 and pre[0][0] == 'c' and isinstance(pre[0][1], (bytes, str)):
            w = pre[0][1].decode() if isinstance(pre[0][1], bytes) else pre[0][1]
            if w.rstrip('(') != name:
                ctx.violate(R, f'{name}|kind', get.loc(), f'{get.short}: text beginning with {w} is read as a {name}')
                continue
            cut = [x for x in subterms(base) if x[0] == 'slice_of' and x[1] == ('p', get.params[0])]
            if len(cut) == 1 and cut[0][2][0] == 'c' and cut[0][3] == ('c', None):
                if cut[0][2][1] != len(name):
                    ctx.violate(R, f'{name}|prefix', get.loc(), f'{get.short}: {cut[0][2][1]} characters of the prefix {name} are cut off')
                    continue
            ctx.ok(R, f'{name}: chosen by its name, which is cut off exactly')
    if got < 2:
        ctx.undecided(R, 'text form', f'{got} of 2 kinds of braid are seen to be read back')


def check(ctx):
    T = ctx.rule('roundtrip', 'the converter reads each field of a braid from where its text form has it')
    roundtrip(ctx, T)
    R = ctx.rule('definition', 'the database effects of the search and the text form of braids are as specified')
    C = ctx.rule('columns', 'placeholders, rows and columns agree in number, order and meaning')
    O = ctx.rule('transaction', 'one transaction a step, committed before the search goes on')
    F = ctx.rule('closing', 'the connection is closed however the search ends')
    compare(ctx, R)
    s = Script(ctx)
    columns(ctx, C, s)
    order(ctx, O, s)
    closed(ctx, F, s)
    ctx.floor(R, 4)
    ctx.floor(C, 1)
    ctx.floor(O, 1)
    ctx.floor(F, 1)
