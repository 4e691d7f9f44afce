"""Scope-aware helpers over the resolved model: local names, callee resolution, call graph."""
import ast

from .model import Class, Func, get_model

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def body_of(node):
    return [node.body] if isinstance(node, ast.Lambda) else node.body


def own_nodes(fnode, include_nested=False):
    """All AST nodes of a function body, not descending into nested functions / classes."""
    stack = list(body_of(fnode))
    while stack:
        n = stack.pop()
        yield n
        if not include_nested and isinstance(n, FUNC + (ast.ClassDef,)):
            # decorators and defaults are evaluated here, though
            stack.extend(getattr(n, "decorator_list", []))
            a = getattr(n, "args", None)
            if a is not None:
                stack.extend(a.defaults)
                stack.extend(d for d in a.kw_defaults if d is not None)
            continue
        stack.extend(ast.iter_child_nodes(n))


def parent_map(tree):
    pm = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            pm[c] = n
    return pm


_pms = {}


def module_parents(m):
    if m.name not in _pms:
        _pms[m.name] = parent_map(m.tree)
    return _pms[m.name]


def params(fnode):
    a = fnode.args
    out = [x.arg for x in a.posonlyargs + a.args]
    if a.vararg:
        out.append(a.vararg.arg)
    out += [x.arg for x in a.kwonlyargs]
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from target_names(e)
    elif isinstance(t, ast.Starred):
        yield from target_names(t.value)


class Scope:
    """Local bindings of one function."""

    def __init__(self, f):
        self.f = f
        self.params = params(f.node)
        self.assigned = {}  # name -> list of value exprs (None when not a plain expression)
        self.imports = {}
        self.nonlocals = set()
        self.nested = {}
        comp = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigned.setdefault(t.id, []).append(n.value)
                    else:
                        for x in target_names(t):
                            self.assigned.setdefault(x, []).append(None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.assigned.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.assigned.setdefault(n.target.id, []).append(None)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                for x in target_names(n.target):
                    self.assigned.setdefault(x, []).append(None)
            elif isinstance(n, ast.comprehension):
                for x in target_names(n.target):
                    comp.add(x)
            elif isinstance(n, ast.NamedExpr):
                self.assigned.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    if it.optional_vars is not None:
                        for x in target_names(it.optional_vars):
                            self.assigned.setdefault(x, []).append(None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.assigned.setdefault(n.name, []).append(None)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                src = get_model().rel_module(f.module, n.level, n.module)
                for a in n.names:
                    self.imports[a.asname or a.name] = ("from", src, a.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.nonlocals.update(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.nested[n.name] = n
        self.comp = comp

    def is_local(self, name):
        return name in self.params or name in self.assigned or name in self.nested or name in self.imports or name in self.comp


_scopes = {}
_by_node = {}


def scope(f):
    if f not in _scopes:
        _scopes[f] = Scope(f)
    return _scopes[f]


def func_of_node(node):
    if not _by_node:
        for f in get_model().funcs:
            _by_node[f.node] = f
    return _by_node.get(node)


def lookup(f, name):
    """Resolve a name inside function f (or at module level when f is a Module)."""
    model = get_model()
    g = f
    while isinstance(g, Func):
        sc = scope(g)
        if name in sc.imports and name not in sc.assigned:
            i = sc.imports[name]
            if i[0] == "from":
                return model.resolve_from(i[1], i[2])
            return ("module", i[1]) if i[1].split(".")[0] == model.pkg else ("ext", i[1])
        if name in sc.nested and name not in sc.assigned and name not in sc.params:
            n = sc.nested[name]
            fn = func_of_node(n)
            if fn is not None:
                return ("func", fn)
            return ("localclass", n)
        if name in sc.params:
            return ("param", g, name)
        if name in sc.assigned and name not in sc.nonlocals:
            return ("local", g, name)
        if name in sc.comp and g is f:
            return ("comp", g, name)
        g = g.parent
    m = f.module if isinstance(f, Func) else f
    return model.resolve(m, name)


def resolve(f, e):
    """Resolve an expression used as callee / reference -> binding tuple or None."""
    model = get_model()
    if isinstance(e, ast.Name):
        return lookup(f, e.id)
    if isinstance(e, ast.Attribute):
        r = resolve(f, e.value)
        if r is None:
            return None
        if r[0] == "ext":
            return ("ext", f"{r[1]}.{e.attr}")
        if r[0] == "module":
            return model.resolve_from(r[1], e.attr)
        if r[0] == "class":
            l = r[1].lookup(e.attr)
            if l and l[1][0] == "func":
                return ("func", l[1][1])
            return None
        if r[0] == "builtin":
            return ("builtin", f"{r[1]}.{e.attr}")
    return None


BUILTIN_METHODS = set()
for _t in (list, dict, str, set, tuple, int, float, bytes):
    BUILTIN_METHODS |= {n for n in dir(_t) if not n.startswith("__")}
import fractions as _fr

BUILTIN_METHODS |= {"numerator", "denominator"}


def enclosing_class(f):
    g = f
    while g is not None:
        if g.cls is not None:
            return g.cls
        g = g.parent
    return None


def callees(f, call, cha=True):
    """Possible repository targets of a call: list of Func / Class."""
    model = get_model()
    fn = call.func
    out = []
    if isinstance(fn, ast.Name):
        r = lookup(f, fn.id)
        if r and r[0] in ("func", "class"):
            return [r[1]]
        if r and r[0] == "local":
            for v in scope(r[1]).assigned.get(fn.id, []):
                if isinstance(v, ast.Lambda):
                    g = func_of_node(v)
                    if g:
                        out.append(g)
                elif isinstance(v, (ast.Name, ast.Attribute)):
                    rr = resolve(r[1], v) if not (isinstance(v, ast.Name) and v.id == fn.id) else None
                    if rr and rr[0] in ("func", "class"):
                        out.append(rr[1])
            return out
        if r and r[0] == "assign" and r[2] is not None:
            if isinstance(r[2], ast.Lambda):
                g = func_of_node(r[2])
                return [g] if g else []
            rr = resolve(r[1], r[2]) if isinstance(r[2], (ast.Name, ast.Attribute)) else None
            if rr and rr[0] in ("func", "class"):
                return [rr[1]]
        return out
    if isinstance(fn, ast.Attribute):
        v = fn.value
        # super().m
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            c = enclosing_class(f)
            if c is not None:
                seen = []
                for k in [c] + model.subclasses(c):
                    l = k.lookup(fn.attr, after=c)
                    if l and l[1][0] == "func" and l[1][1] not in seen:
                        seen.append(l[1][1])
                return seen
            return []
        r = resolve(f, v) if isinstance(v, (ast.Name, ast.Attribute)) else None
        if r and r[0] == "class":
            l = r[1].lookup(fn.attr)
            return [l[1][1]] if l and l[1][0] == "func" else []
        if r and r[0] == "module":
            rr = model.resolve_from(r[1], fn.attr)
            return [rr[1]] if rr and rr[0] in ("func", "class") else []
        if r and r[0] in ("ext",):
            return []
        if isinstance(v, ast.Name) and v.id in ("self", "cls"):
            c = enclosing_class(f)
            if c is not None:
                seen = []
                for k in [c] + model.subclasses(c):
                    l = k.lookup(fn.attr)
                    if l and l[1][0] == "func" and l[1][1] not in seen:
                        seen.append(l[1][1])
                if seen:
                    return seen
        if cha and fn.attr not in BUILTIN_METHODS:
            for c in model.classes:
                mem = c.members.get(fn.attr)
                if mem and mem[0] == "func":
                    out.append(mem[1])
        return out
    if isinstance(fn, ast.Call):
        # f(...)(...): the functions returned by f
        for g in callees(f, fn, cha):
            if isinstance(g, Func):
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
                        r = lookup(g, n.value.id)
                        if r and r[0] == "func":
                            out.append(r[1])
            elif isinstance(g, Class):
                m = g.method("__call__")
                if m:
                    out.append(m)
    return out


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return f"{b}.{e.attr}" if b else None
    return None


def functions_and_module_bodies():
    m = get_model()
    return list(m.funcs)
