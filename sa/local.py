"""Where two definitions with different forms differ: the one place, if it is one place.

Two definitions whose canonical forms differ may still be two ways to the same result.  When their syntax trees, with names of
parameters matched and docstrings, annotations and messages dropped, agree but for a few symbols of one statement, or for two
neighbouring statements having changed places, there is no other way in sight: the same computation was changed in that place."""
from __future__ import annotations
import ast, builtins, io, keyword, re, tokenize


class Bare(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.decorator_list, n.returns = [], None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            a.annotation = None
        n.body = [s for s in n.body if not inert(s)] or [ast.Pass()]
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def body(self, n):
        self.generic_visit(n)
        n.body = [s for s in n.body if not inert(s)] or [ast.Pass()]
        if getattr(n, 'orelse', None):
            n.orelse = [s for s in n.orelse if not inert(s)]
        return n

    visit_For = visit_While = visit_If = visit_With = body

    def visit_Name(self, n):
        n.id = self.names.get(n.id, n.id)
        return n

    def visit_Assert(self, n):
        self.generic_visit(n)
        n.msg = None
        return n

    def visit_Raise(self, n):
        self.generic_visit(n)
        if isinstance(n.exc, ast.Call):
            n.exc.args, n.exc.keywords = [], []
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return None
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)


def inert(s):
    return isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def copy(node):
    return ast.parse(ast.unparse(node)).body[0]


def lines(node, params):
    n = copy(node)
    a = n.args
    mine = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    names = dict(zip(mine, params)) if params else {}
    n = ast.fix_missing_locations(Bare(names).visit(n))
    out = []
    for s in n.body:
        for l in ast.unparse(s).split('\n'):
            text = l.lstrip(' ')
            toks = [t.string for t in tokenize.generate_tokens(io.StringIO(text + '\n').readline) if t.string.strip()] if balanced(text) else text.split()
            out.append((len(l) - len(text), tuple(toks)))
    return out


def balanced(text):
    try:
        list(tokenize.generate_tokens(io.StringIO(text + '\n').readline))
        return True
    except (tokenize.TokenError, IndentationError, SyntaxError):
        return False


def place(g, f, known):
    """A description of the only place where definition g departs from f, or None."""
    return line(g, f, known) or point(g, f)


def point(g, f):
    """The one subexpression of g that stands for another of f and says something else about the same things."""
    params = [x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
    mine = [x.arg for x in g.args.posonlyargs + g.args.args + g.args.kwonlyargs]
    if len(params) != len(mine):
        return None
    a = ast.fix_missing_locations(Bare(dict(zip(mine, params))).visit(copy(g)))
    b = ast.fix_missing_locations(Bare({}).visit(copy(f)))
    d = differ(a.body, b.body)
    if d == 'many' or d and not isinstance(d[0], ast.AST) or d and isinstance(d[0], ast.stmt) or d and not shifted(*d) and not shifted(*d[::-1]):
        d = same(a.body, b.body) or d
    if not d or d == 'many':
        return None
    u, v = d
    if isinstance(u, ast.Assert) and isinstance(v, ast.Assert):
        u, v = u.test, v.test
    w = [n for n in ast.walk(a) if isinstance(n, ast.Assert) and any(x is u for x in ast.walk(n))]
    if w and isinstance(u, ast.Compare) and isinstance(v, ast.Compare) and plain(u) and plain(v) and about(u) < about(v):
        return f'`{ast.unparse(u)}` for `{ast.unparse(v)}`'
    if isinstance(u, ast.stmt):
        u, v = value(u), value(v)
        if u is None or v is None or ast.dump(u[0]) != ast.dump(v[0]):
            return None
        u, v = u[1], v[1]
        e = differ(u, v)
        if isinstance(e, tuple):
            u, v = e
    if not isinstance(u, ast.expr) or not isinstance(v, ast.expr):
        return None
    for op in (ast.And, ast.Or, ast.BitAnd, ast.BitOr):
        x, y = operands(u, op), operands(v, op)
        for m, n in ((x, y), (y, x)):
            it = iter(n)
            if len(m) < len(n) and all(w in it for w in m):
                return f'`{ast.unparse(u)}` for `{ast.unparse(v)}`'
    for m, n in ((u, v), (v, u)):
        if isinstance(m, ast.Call) and len(m.args) == 1 and not m.keywords and ast.dump(m.args[0]) == ast.dump(n) and ast.unparse(m.func).split('.')[-1] in WRAPS:
            return f'`{ast.unparse(u)}` for `{ast.unparse(v)}`'
    if type(u) is type(v) and hasattr(u, 'generators') and len(u.generators) == len(v.generators):
        x, y = [[ast.dump(i) for i in c.ifs] for c in u.generators], [[ast.dump(i) for i in c.ifs] for c in v.generators]
        w = ast.parse(ast.unparse(u), mode='eval').body
        z = ast.parse(ast.unparse(v), mode='eval').body
        for c in w.generators + z.generators:
            c.ifs = []
        if ast.dump(w) == ast.dump(z) and (all(set(m) <= set(n) for m, n in zip(x, y)) or all(set(n) <= set(m) for m, n in zip(x, y))):
            return f'`{ast.unparse(u)}` for `{ast.unparse(v)}`'
    if plain(u) and plain(v) and about(u) == about(v) and about(u):
        return f'`{ast.unparse(u)}` for `{ast.unparse(v)}`'
    up = [next((n for n in ast.walk(k) if isinstance(n, ast.Subscript) and n.slice is x), None) for k, x in ((a, u), (b, v))]
    if all(up):
        u, v = up
    if elsewhere(u, v, there(a), there(b)):
        return f'`{ast.unparse(u)}` for `{ast.unparse(v)}`'
    if shifted(u, v) or shifted(v, u) or sifted(u, v) or sifted(v, u) or spread(u, v) or spread(v, u):
        return f'`{ast.unparse(u)}` for `{ast.unparse(v)}`'
    return None


def shifted(u, v):
    """u is v with something added, subtracted, multiplied, or a remainder taken."""
    return isinstance(u, ast.BinOp) and isinstance(u.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)) and \
        (ast.dump(u.left) == ast.dump(v) or isinstance(u.op, (ast.Add, ast.Mult)) and ast.dump(u.right) == ast.dump(v))


def sifted(u, v):
    """u is the members of v that meet a condition."""
    return isinstance(u, (ast.GeneratorExp, ast.ListComp)) and len(u.generators) == 1 and bool(u.generators[0].ifs) and isinstance(u.elt, ast.Name) and \
        isinstance(u.generators[0].target, ast.Name) and u.elt.id == u.generators[0].target.id and ast.dump(u.generators[0].iter) == ast.dump(v)


def there(f):
    return {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | {n.arg for n in ast.walk(f) if isinstance(n, ast.arg)}


def field(n):
    """(what it is taken from, which field), for a field, its length, its element, or a method without arguments."""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and not n.keywords:
        n = n.args[0]
    at = ''
    if isinstance(n, ast.Subscript) and plain(n.slice):
        at, n = ast.dump(n.slice), n.value
    if isinstance(n, ast.Call) and not n.args and not n.keywords:
        n = n.func
    if isinstance(n, ast.Attribute):
        w = n.value
        while isinstance(w, ast.Attribute):
            w = w.value
        if isinstance(w, ast.Name):
            return ast.dump(n.value) + at, n.attr
    return None, None


def elsewhere(u, v, mine, theirs):
    """u reads another field of the same object, another element of the same sequence, or a fixed number instead."""
    if not mine <= theirs:
        return False
    (a, x), (b, y) = field(u), field(v)
    if a is not None and a == b and x != y:
        return True
    if isinstance(u, ast.Subscript) and isinstance(v, ast.Subscript) and isinstance(u.ctx, ast.Load) and ast.dump(u.value) == ast.dump(v.value):
        u, v = u.slice, v.slice
        return plain(u) and plain(v) and bool(about(u) | about(v)) and about(u) != about(v) and not any(isinstance(x, (ast.UnaryOp, ast.Slice, ast.Tuple, ast.BoolOp, ast.Compare)) for n in (u, v) for x in ast.walk(n))
    return isinstance(u, ast.Constant) and type(u.value) is int and field(v)[0] is not None or isinstance(v, ast.Constant) and type(v.value) is int and field(u)[0] is not None


def spread(u, v):
    """u is the extreme or the sum of all of v's members, where v is the one at some place."""
    return isinstance(v, ast.Subscript) and not isinstance(v.slice, (ast.Constant, ast.UnaryOp, ast.Slice, ast.Tuple)) and isinstance(u, ast.Call) and \
        ast.unparse(u.func).split('.')[-1] in ('min', 'max', 'sum', 'amin', 'amax') and len(u.args) == 1 and not u.keywords and ast.dump(u.args[0]) == ast.dump(v.value)


WRAPS = {'max', 'min', 'abs', 'sum', 'any', 'all', 'len', 'reversed', 'amax', 'amin', 'argmax', 'argmin', 'cumsum', 'neg', 'isqrt', 'sqrt', 'floor', 'ceil', 'log', 'exp', 'next'}


def value(s):
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        return s.targets[0], s.value
    if isinstance(s, ast.AugAssign):
        t = ast.parse(ast.unparse(s.target), mode='eval').body
        return ast.parse(ast.unparse(s.target) + ' = 0').body[0].targets[0], ast.fix_missing_locations(ast.BinOp(left=t, op=s.op, right=s.value))
    if isinstance(s, ast.Return) and s.value is not None:
        return ast.Constant('return'), s.value
    return None


def operands(n, op):
    if isinstance(n, ast.BoolOp) and isinstance(n.op, op):
        return [ast.dump(v) for v in n.values]
    if isinstance(n, ast.BinOp) and isinstance(n.op, op):
        return operands(n.left, op) + operands(n.right, op)
    return [ast.dump(n)]


def plain(n):
    """Arithmetic, comparisons, choices, subscripts and lengths of names and fields: what canonical forms decide."""
    if isinstance(n, (ast.Name, ast.Constant)):
        return not isinstance(n, ast.Constant) or n.value is None or isinstance(n.value, (int, bool))
    if isinstance(n, ast.Attribute):
        return plain(n.value)
    if isinstance(n, ast.BinOp):
        return isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and plain(n.left) and plain(n.right)
    if isinstance(n, ast.UnaryOp):
        return isinstance(n.op, (ast.Not, ast.USub)) and plain(n.operand)
    if isinstance(n, ast.BoolOp):
        return all(map(plain, n.values))
    if isinstance(n, ast.Compare):
        return all(map(plain, [n.left] + n.comparators)) and not any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops)
    if isinstance(n, ast.IfExp):
        return plain(n.test) and plain(n.body) and plain(n.orelse)
    if isinstance(n, ast.Tuple):
        return all(map(plain, n.elts))
    if isinstance(n, ast.Subscript):
        return plain(n.value) and plain(n.slice)
    if isinstance(n, ast.Slice):
        return all(x is None or plain(x) for x in (n.lower, n.upper)) and n.step is None
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and (n.func.id in ('len', 'abs') and len(n.args) == 1 or n.func.id in ('min', 'max') and len(n.args) > 1) and not n.keywords and all(map(plain, n.args))
    return False


def about(n):
    """The names and fields an expression is about."""
    if isinstance(n, ast.Name):
        return {n.id} - {'len', 'abs', 'min', 'max'}
    if isinstance(n, ast.Attribute):
        return {ast.unparse(n)}
    return set().union(*(about(c) for c in ast.iter_child_nodes(n)))


def differ(a, b):
    """None if equal, the smallest pair of subtrees in which they differ if there is one, 'many' otherwise."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return 'many'
        got = [d for d in (differ(x, y) for x, y in zip(a, b)) if d is not None]
        return None if not got else got[0] if len(got) == 1 else 'many'
    if isinstance(a, ast.AST) and isinstance(b, ast.AST):
        if type(a) is not type(b):
            return (a, b)
        got = [d for d in (differ(getattr(a, k, None), getattr(b, k, None)) for k in a._fields if k not in ('ctx', 'type_comment', 'kind', 'type_params')) if d is not None]
        if not got:
            return None
        if len(got) == 1 and got[0] != 'many' and isinstance(got[0][0], (ast.expr, ast.stmt)):
            return got[0]
        if isinstance(a, ast.expr) or isinstance(a, ast.stmt) and value(a):
            return (a, b)
        return 'many'
    return None if a == b else (a, b)


def same(a, b):
    """The pair of subexpressions by which two bodies differ everywhere they differ, the second with something added on."""
    out = []

    def walk(x, y):
        if isinstance(x, list) and isinstance(y, list):
            return len(x) == len(y) and all(walk(p, q) for p, q in zip(x, y))
        if isinstance(x, ast.AST) and isinstance(y, ast.AST):
            if isinstance(x, ast.expr) and isinstance(y, ast.expr) and (shifted(x, y) or shifted(y, x)):
                out.append((x, y))
                return True
            return type(x) is type(y) and all(walk(getattr(x, k, None), getattr(y, k, None)) for k in x._fields if k not in ('ctx', 'type_comment', 'kind', 'type_params'))
        return x == y
    if not walk(a, b) or not out or len({(ast.dump(x), ast.dump(y)) for x, y in out}) != 1:
        return None
    return out[0]


def line(g, f, known):
    params = [x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
    if len(params) != len(g.args.posonlyargs + g.args.args + g.args.kwonlyargs):
        return None
    a, b = lines(g, params), lines(f, params)
    if a == b:
        return None
    lo = 0
    while lo < min(len(a), len(b)) and a[lo] == b[lo]:
        lo += 1
    hi = 0
    while hi < min(len(a), len(b)) - lo and a[-1 - hi] == b[-1 - hi]:
        hi += 1
    x, y = a[lo:len(a) - hi], b[lo:len(b) - hi]
    if not x and len(y) == 1 and moves(y[0][1]):
        return f'`{" ".join(y[0][1])}` is not there'
    if not y and len(x) == 1 and moves(x[0][1], {w for _, l in b for w in l}):
        return f'`{" ".join(x[0][1])}` is there as well'
    if len(x) == len(y) == 2 and x == y[::-1] and x[0][0] == x[1][0]:
        return f'`{" ".join(x[0][1])}` comes before `{" ".join(x[1][1])}`'
    for m, n, how in ((x, y, 'only under'), (y, x, 'whether or not')):
        if len(m) == 2 and len(n) == 1 and m[0][0] == n[0][0] and m[1][0] > m[0][0] and m[1][1] == n[0][1] and m[0][1][0] == 'if' and gathers(n[0][1]) and compares(m[0][1]):
            return f'`{" ".join(n[0][1])}` {how} `{" ".join(m[0][1][1:-1])}`'
    if len(x) != 1 or len(y) != 1 or x[0][0] != y[0][0]:
        return None
    if {x[0][1], y[0][1]} == {('continue',), ('break',)} and lo and a[lo - 1][1][0] == 'if' and not set(a[lo - 1][1]) & {'<', '<=', '>', '>='}:
        return f'`{x[0][1][0]}` for `{y[0][1][0]}`'
    s, t = x[0][1], y[0][1]
    there = {w for _, l in b for w in l}
    for w in s:
        if WORD.match(w) and w not in there and w not in known and not hasattr(builtins, w):
            return None
    return f'`{" ".join(s)}` for `{" ".join(t)}`' if slip(s, t) or fewer(s, t) else None


def gathers(l):
    """Does the line put one more thing into a list, or hand one out?"""
    try:
        s = ast.parse(' '.join(l)).body[0]
    except SyntaxError:
        return False
    if isinstance(s, ast.AugAssign):
        return isinstance(s.op, ast.Add) and isinstance(s.value, ast.List) and len(s.value.elts) == 1
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append'


def compares(l):
    """Is the line a test of one comparison between numbers, and not one for being zero or empty?"""
    try:
        t = ast.parse(' '.join(l) + ' pass').body[0].test
    except SyntaxError:
        return False
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and plain(t) and not any(isinstance(n, ast.Constant) and n.value in (0, None) for n in ast.walk(t))


def moves(l, there=None):
    """Does the line change something: an assignment (to what is there anyway), a call for its effect?"""
    try:
        s = ast.parse(' '.join(l)).body
    except SyntaxError:
        return False
    if len(s) != 1:
        return False
    s = s[0]
    if isinstance(s, ast.Assign):
        ts = [e for t in s.targets for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]
        return there is None or all(any(isinstance(x, ast.Name) and x.id in there for x in ast.walk(e)) for e in ts)
    if isinstance(s, ast.AugAssign):
        return True
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in EFFECTS


EFFECTS = {'append', 'extend', 'add', 'update', 'remove', 'discard', 'pop', 'insert', 'reverse', 'sort', 'clear', 'commit', 'execute', 'executemany'}


def fewer(s, t):
    """Is the condition of one line the other's with some conjuncts (disjuncts) more or less?"""
    def test(l):
        text = ' '.join(l)
        if l[0] == 'elif':
            text = text[2:]
        try:
            n = ast.parse(text + ' pass' if text.endswith(':') else text).body[0]
        except SyntaxError:
            return None, None
        return (type(n), n.test) if isinstance(n, (ast.If, ast.While, ast.Assert)) and isinstance(l, tuple) else (None, None)
    (k, a), (m, b) = test(s), test(t)
    if k is None or k is not m:
        return False

    def parts(n, op):
        return [ast.dump(v) for v in n.values] if isinstance(n, ast.BoolOp) and isinstance(n.op, op) else [ast.dump(n)]
    for op in (ast.And, ast.Or):
        x, y = parts(a, op), parts(b, op)
        for u, v in ((x, y), (y, x)):
            it = iter(v)
            if len(u) < len(v) and all(w in it for w in u):
                return True
    return False


WORD = re.compile(r'[A-Za-z_]\w*$')
PAIRS = ({'min', 'max'}, {'any', 'all'}, {'argmin', 'argmax'}, {'floor', 'ceil'}, {'append', 'extend'}, {'add', 'discard'}, {'prefix', 'suffix'}, {'argsort', 'sort'}, {'isqrt', 'sqrt'})
COMPARE = {'<', '<=', '>', '>=', '==', '!='}
ARITH = {'+', '-', '*', '//', '/', '%', '**'}


def kind(l, i):
    w = l[i]
    if WORD.match(w):
        if w in ('and', 'or'):
            return 'and'
        if w in ('True', 'False'):
            return 'truth'
        if keyword.iskeyword(w):
            return w
        return 'callee' if i + 1 < len(l) and l[i + 1] == '(' else 'keyword' if i + 1 < len(l) and l[i + 1] == '=' and i > 0 else 'field' if i and l[i - 1] == '.' else 'name'
    return 'number' if w[0].isdigit() else 'compare' if w in COMPARE else 'arith' if w in ARITH else 'inplace' if w[:-1] in ARITH and w[-1] == '=' else 'text' if w[0] in '"\'' else w


def slip(s, t):
    """Do the two lines differ by one or two symbols of the same kind, a shift by a number, a negation, an argument more or
    less, or two arguments exchanged?"""
    if len(s) == len(t):
        at = [i for i in range(len(s)) if s[i] != t[i]]
        if len(at) <= 2 and all(kind(s, i) == kind(t, i) not in ('callee', 'keyword') or {s[i], t[i]} in PAIRS for i in at):
            return True
    if s.count('zip_longest') != t.count('zip_longest') and zips(s) == zips(t):
        return True
    lo = 0
    while lo < min(len(s), len(t)) and s[lo] == t[lo]:
        lo += 1
    hi = 0
    while hi < min(len(s), len(t)) - lo and s[-1 - hi] == t[-1 - hi]:
        hi += 1
    x, y = s[lo:len(s) - hi], t[lo:len(t) - hi]
    if x and y:
        # two neighbouring arguments exchanged
        return any(x[:i] == y[len(y) - i:] and x[i:i + 1] == (',',) and x[i + 1:] == y[:len(x) - i - 1] and y[len(x) - i - 1:len(x) - i] == (',',) and whole(x[:i]) and whole(x[i + 1:])
                   for i in range(1, len(x)))
    z = x or y
    # the common part may have been taken from either end
    for k in range(0, lo + 1):
        w = (t if y else s)[lo - k:lo - k + len(z)]
        if (s[:lo - k] + s[len(s) - hi - k:]) != (t[:lo - k] + t[len(t) - hi - k:]) and k:
            continue
        if w == ('not',) or len(w) == 2 and w[0] in ('+', '-') and w[1].isdigit() or w[:1] in ((',',), ('and',), ('or',)) and len(w) <= 9 and whole(w[1:]) or \
                w[-1:] in (('and',), ('or',)) and len(w) <= 9 and whole(w[:-1]):
            return True
    return False


def zips(l):
    text = ' '.join(l)
    text = re.sub(r'(itertools \. )?zip_longest', 'zip', text)
    return re.sub(r' , fillvalue = [^(),]+(?= \))', '', text)


def whole(l):
    d = 0
    for w in l:
        d += (w in '([{') - (w in ')]}')
        if d < 0 or d == 0 and w in (',', ':', 'for', 'in', 'if', 'else'):
            return False
    return d == 0 and bool(l)
