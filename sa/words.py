"""How far a function has been rewritten since it was reviewed, counted in words of source.

A small edit that changes the form of a function is what an alarm by distance is about.  A function that has been
written anew has another form for reasons the comparison cannot judge, so it is left undecided instead.
"""
import ast, copy, difflib, functools, json, os, re

REWRITTEN = 30


def bare(node):
    """The function without decorators, annotations and documentation."""
    node = copy.deepcopy(node)
    node.decorator_list = []
    node.returns = None
    for k in ast.walk(node):
        if isinstance(k, (ast.FunctionDef, ast.ClassDef)) and k.body and isinstance(k.body[0], ast.Expr) and isinstance(k.body[0].value, ast.Constant):
            k.body = k.body[1:] or [ast.Pass()]
        if isinstance(k, ast.arg):
            k.annotation = None
    return node


def words(node):
    node = bare(node)
    node.name = 'f'
    bound = {k.id for k in ast.walk(node) if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Store)} | {k.arg for k in ast.walk(node) if isinstance(k, ast.arg)}
    return [('v' if t in bound else t) for t in re.findall(r'[A-Za-z_]\w*|\d[\w.]*|[^\w\s]', ast.unparse(node))]


@functools.lru_cache(None)
def reviewed():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reviewed.json')) as h:
        return {k: [ast.parse(t).body[0] for t in v] for k, v in json.load(h).items()}


def edits(name, node, others=()):
    """Words changed since the nearest reviewed text, or None if the function was not there."""
    old = [words(k) for k in (*reviewed().get(name, ()), *others)]
    if not old:
        return None
    new = words(node)
    return min(sum(max(b - a, d - c) for t, a, b, c, d in difflib.SequenceMatcher(None, o, new, False).get_opcodes() if t != 'equal') for o in old)
