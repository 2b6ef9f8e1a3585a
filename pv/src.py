"""Locate the source of running functions: the verified text is the code that runs."""
from __future__ import annotations
import ast, types

_mods = {}
_cache = {}


class SourceMismatch(Exception):
    pass


def module_info(filename):
    if filename not in _mods:
        with open(filename, encoding='utf-8') as fh:
            text = fh.read()
        tree = ast.parse(text, filename)
        defs = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([node.lineno] + [d.lineno for d in node.decorator_list])
                defs.setdefault((node.name, line), []).append(node)
            elif isinstance(node, ast.Lambda):
                defs.setdefault(('<lambda>', node.lineno), []).append(node)
        codes = {}

        def walk(code):
            codes.setdefault((code.co_name, code.co_firstlineno), []).append(code)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)

        walk(compile(text, filename, 'exec', dont_inherit=True))
        _mods[filename] = (tree, defs, codes)
    return _mods[filename]


def code_eq(a, b):
    if a.co_code != b.co_code or a.co_names != b.co_names or a.co_varnames != b.co_varnames:
        return False
    if a.co_freevars != b.co_freevars or len(a.co_consts) != len(b.co_consts):
        return False
    for x, y in zip(a.co_consts, b.co_consts):
        if isinstance(x, types.CodeType) and isinstance(y, types.CodeType):
            if not code_eq(x, y):
                return False
        elif type(x) is not type(y) or repr(x) != repr(y):
            return False
    return True


def func_node(fn):
    """AST node of a Python function object, checked against its bytecode."""
    code = fn.__code__
    if code in _cache:
        return _cache[code]
    tree, defs, codes = module_info(code.co_filename)
    key = (code.co_name, code.co_firstlineno)
    cands = defs.get(key, [])
    if not any(code_eq(code, c) for c in codes.get(key, [])):
        raise SourceMismatch(f'{code.co_qualname}: running bytecode is not that of the source text')
    if len(cands) > 1:
        good = []
        pos = next((p for p in code.co_positions() if p[0] is not None and p[2] is not None), None)
        starts = {(p[0], p[2]) for p in code.co_positions() if p[0] is not None and p[2] is not None}
        for n in cands:
            body = n.body if isinstance(n, ast.Lambda) else n
            lo, hi = (body.lineno, body.col_offset), (body.end_lineno, body.end_col_offset)
            inside = [s for s in starts if lo <= s <= hi]
            if inside and all(lo <= s <= hi for s in starts if s[1] != 0 or s[0] != code.co_firstlineno):
                good.append(n)
        cands = good or cands
    if len(cands) != 1:
        raise SourceMismatch(f'{code.co_qualname}: {len(cands)} candidate definitions')
    _cache[code] = cands[0]
    return cands[0]


def assigned_names(node):
    """Names assigned in a function body (its locals besides the parameters)."""
    out, nonl = set(), set()

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    def go(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda,)) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            return
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            nonl.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            go(c)

    if isinstance(node, ast.Lambda):
        go(node.body)
    else:
        for s in node.body:
            go(s)
    return out - nonl


def functions(package='protosym'):
    """Every function and method of the package: (file, 'module.qualname', class name or None, node)."""
    import importlib.util, os
    root = importlib.util.find_spec(package).submodule_search_locations[0]
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            path = os.path.join(d, f)
            with open(path, encoding='utf-8') as fh:
                tree = ast.parse(fh.read(), path)
            mod = package + '.' + os.path.relpath(path, root)[:-3].replace(os.sep, '.')
            mod = mod[:-9] if mod.endswith('.__init__') else mod

            def go(body, qual, cls):
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield path, qual + n.name, cls, n
                    elif isinstance(n, ast.ClassDef):
                        yield from go(n.body, f'{qual}{n.name}.', n.name)
                    elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                        yield from go(getattr(n, 'body', []) + getattr(n, 'orelse', []) + [s for h in getattr(n, 'handlers', []) for s in h.body], qual, cls)
            yield from go(tree.body, mod + '.', None)
