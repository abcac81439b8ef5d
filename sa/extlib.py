"""What the libraries around /repo define: the standard library by introspection, numpy and pandas by parsing their sources."""
import ast, functools, glob, importlib, importlib.util, inspect, os, sys


@functools.cache
def site():
    for pat in ('/opt/venv/lib/python3*/site-packages',):
        g = sorted(glob.glob(pat))
        if g:
            return g[0]
    return None


@functools.cache
def installed(top):
    if top in sys.stdlib_module_names:
        return True
    s = site()
    if s is None:
        return None
    return os.path.isdir(f'{s}/{top}') or os.path.exists(f'{s}/{top}.py') or bool(glob.glob(f'{s}/{top}.*so'))


@functools.cache
def names_in(path):
    try:
        t = ast.parse(open(path, encoding='utf-8').read())
    except (OSError, SyntaxError):
        return None
    out = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split('.')[0])
            if n.name == '*':
                out.add('*')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


@functools.cache
def ext_has(d):
    """Does the dotted external name exist?  True / False / None (cannot tell)."""
    parts = d.split('.')
    top = parts[0]
    if top == 'builtins':
        import builtins
        return len(parts) < 2 or hasattr(builtins, parts[1])
    if top in sys.stdlib_module_names:
        obj = None
        for k in range(len(parts), 0, -1):
            try:
                obj = importlib.import_module('.'.join(parts[:k]))
                break
            except ImportError:
                continue
            except Exception:
                return None
        if obj is None:
            return None
        for p in parts[k:]:
            if not hasattr(obj, p):
                if k == 1 and p in ('path',):
                    return None
                return False
            obj = getattr(obj, p)
            if not inspect.ismodule(obj) and not inspect.isclass(obj):
                return True
        return True
    inst = installed(top)
    if not inst:
        return inst
    s = site()
    if top in ('numpy', 'pandas'):
        path = f'{s}/{top}'
        for i, p in enumerate(parts[1:]):
            ns = set()
            for fn in ('__init__.pyi', '__init__.py'):
                ns |= names_in(f'{path}/{fn}') or set()
            sub = os.path.isdir(f'{path}/{p}') or os.path.exists(f'{path}/{p}.py') or os.path.exists(f'{path}/{p}.pyi')
            if p in ns:
                return True
            if not sub:
                return False
            if os.path.isdir(f'{path}/{p}'):
                path = f'{path}/{p}'
                continue
            return None
        return True
    return None


@functools.cache
def ext_signature(d):
    """inspect.Signature of a standard-library callable, or None."""
    parts = d.split('.')
    if parts[0] not in sys.stdlib_module_names and parts[0] != 'builtins':
        return None
    try:
        obj = importlib.import_module(parts[0])
        for p in parts[1:]:
            obj = getattr(obj, p)
        return inspect.signature(obj)
    except Exception:
        return None


@functools.cache
def ndarray_attrs():
    s = site()
    out = set()
    try:
        t = ast.parse(open(f'{s}/numpy/__init__.pyi', encoding='utf-8').read())
    except (OSError, SyntaxError, TypeError):
        return None
    for n in ast.walk(t):
        if isinstance(n, ast.ClassDef):
            for x in n.body:
                if isinstance(x, ast.FunctionDef):
                    out.add(x.name)
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    out.add(x.target.id)
                elif isinstance(x, ast.Assign):
                    out |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    return out


@functools.cache
def frame_attrs():
    s = site()
    out = set()
    for f in ('frame', 'generic', 'base', 'indexing', 'arraylike', 'series', 'accessor'):
        ns = names_in(f'{s}/pandas/core/{f}.py')
        if ns is None:
            return None
        out |= ns
    return out
