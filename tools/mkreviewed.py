"""Write sa/reviewed.json: the text of every function of the tree that was reviewed against the specifications.

Run on the reviewed tree only; the checks read the result and never write it.
"""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.words import bare

repo = os.environ.get('VERIF_REPO', '/repo')
out = {}
for root, dirs, files in os.walk(repo):
    dirs[:] = sorted(d for d in dirs if not d.startswith('.') and d not in ('tests', '__pycache__'))
    for f in sorted(files):
        if not f.endswith('.py') or f.startswith('test_') or f == 'conftest.py':
            continue
        p = os.path.join(root, f)
        mod = os.path.relpath(p, repo)[:-3].replace('/', '.')

        def walk(body, path):
            for k in body:
                if isinstance(k, ast.ClassDef):
                    walk(k.body, path + [k.name])
                elif isinstance(k, ast.FunctionDef):
                    out.setdefault('.'.join([mod] + path + [k.name]), []).append(ast.unparse(bare(k)))
        walk(ast.parse(open(p).read()).body, [])
with open(os.path.join(HERE, 'sa', 'reviewed.json'), 'w') as h:
    json.dump(out, h, indent=0, sort_keys=True)
    h.write('\n')
print(len(out), 'functions')
