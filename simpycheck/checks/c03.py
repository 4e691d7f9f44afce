"""C03: no internal programming error can surface."""
import ast
import builtins
import copy
import importlib
import sys

from ..astutil import FUNC, callees, enclosing_class, func_of_node, lookup, module_parents, own_nodes, params, resolve, scope, target_names
from ..model import Class, Func, get_model
from ..paths import Definite
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import Budget, kinds
from ..vflow.values import Done, ExprV, Infeasible, PList, Raised, Undecided

MISUSE = ("not iterable", "operand", "operator", "terms", "len", "subscript", "neg", "join", "int of expression", "matmul")
ERRORS = {"AttributeError", "NameError", "UnboundLocalError", "NotImplementedError", "KeyError", "ImportError"}
ARITY = ("takes", "missing", "unexpected", "multiple values", "arguments")
LAZY_OK = {"__class__", "__name__", "__file__", "__doc__", "__module__", "__qualname__", "__dict__", "__path__", "__spec__", "__builtins__"}


def lib(m):
    """Library modules a user imports (debugging helpers need tools that are not installed)."""
    return ".debug" not in m.name


# ---------------------------------------------------------------- names
def literal_domain(f):
    """Parameters with a Literal annotation, or given constants by every caller in the package."""
    out = {}
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        an = getattr(x, "annotation", None)
        if isinstance(an, ast.Subscript) and (getattr(an.value, "id", None) == "Literal" or getattr(an.value, "attr", None) == "Literal"):
            es = an.slice.elts if isinstance(an.slice, ast.Tuple) else [an.slice]
            if all(isinstance(e, ast.Constant) for e in es):
                out[x.arg] = [("c", type(e.value).__name__, repr(e.value)) for e in es]
    return out


_callers = None


def callers():
    global _callers
    if _callers is None:
        _callers = {}
        for f in get_model().funcs:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for g in callees(f, n, cha=False):
                        if isinstance(g, Func):
                            _callers.setdefault(g, []).append((f, n))
    return _callers


def caller_domain(f):
    if f.cls is not None or isinstance(f.node, ast.Lambda):
        return {}
    sites = callers().get(f, [])
    out = {}
    ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    for p in ps + [x.arg for x in f.node.args.kwonlyargs]:
        vals = set()
        for g, c in sites:
            v = None
            if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                break
            for k in c.keywords:
                if k.arg == p:
                    v = k.value
            if v is None and p in ps and ps.index(p) < len(c.args):
                v = c.args[ps.index(p)]
            if v is None:
                d = default_of(f.node, p)
                v = d
            if not isinstance(v, ast.Constant):
                break
            vals.add(("c", type(v.value).__name__, repr(v.value)))
        else:
            # used as a value somewhere (functools.partial, an alias)?  then its arguments are not all known
            if vals and not referenced(f):
                out[p] = sorted(vals)
    return out


def default_of(node, p):
    a = node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == p:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == p:
            return d
    return None


def referenced(f):
    """f is mentioned other than as the callee of a call."""
    for m in get_model().modules.values():
        pm = module_parents(m)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == f.name and isinstance(n.ctx, ast.Load):
                p = pm.get(n)
                if not (isinstance(p, ast.Call) and p.func is n):
                    return True
    return False


def check_bound(rep):
    m = get_model()
    n = 0
    for f in m.funcs:
        dom = dict(caller_domain(f))
        dom.update(literal_domain(f))
        d = Definite(f.node, dom)
        n += 1
        if not d.decided:
            rep.undecide(f.short, "too many path states")
        for node, name in d.unbound.items():
            rep.find("unbound local", f"{f.short}: {name}", f.loc(node), f"{f.short}: on some path the local name `{name}` is read before anything was assigned to it (line {node.lineno})")
    for mod in m.modules.values():
        d = Definite(mod.tree)
        for node, name in d.unbound.items():
            if not hasattr(builtins, name):
                rep.find("unbound name", f"{mod.name}: {name}", f"{mod.rel}:{node.lineno}", f"{mod.name}: `{name}` is read at import time before it is bound")
    rep.count("functions with every local read checked for assignment", n)


class NameWalk:
    """Every Name load of a module against the scopes that can bind it."""

    def __init__(self, rep, mod):
        self.rep, self.mod, self.m = rep, mod, get_model()
        self.n = 0
        self.has_unknown_star = any(s not in self.m.modules for s in mod.stars)
        self.globals = set(mod.ns)
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Global):
                self.globals.update(x.names)
        for s in mod.stars:
            self.globals.update(self.m.exported(s) or [])
        self.block(mod.tree.body, [])

    def known(self, name, scopes):
        return any(name in s for s in scopes) or name in self.globals or hasattr(builtins, name) or name in LAZY_OK

    def bindings(self, node):
        out, skip = set(), set()
        if isinstance(node, FUNC):
            out.update(params(node))
        it = own_nodes(node) if isinstance(node, FUNC) else Definite.module_nodes(node)
        for n in list(it):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name).split(".")[0] for a in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif type(n).__name__ in ("MatchAs", "MatchStar") and n.name:
                out.add(n.name)
        return out

    def block(self, stmts, scopes, where="module level"):
        for st in stmts:
            self.visit(st, scopes, where)

    def visit(self, n, scopes, where):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.n += 1
                if not self.known(n.id, scopes) and not self.has_unknown_star:
                    self.rep.find("undefined name", f"{self.mod.name}.{where}: {n.id}", f"{self.mod.rel}:{n.lineno}", f"{where} uses the name `{n.id}`, which no enclosing scope, module or builtin defines")
            return
        if isinstance(n, FUNC):
            for d in getattr(n, "decorator_list", []) + list(n.args.defaults) + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, scopes, where)
            inner = [s for s in scopes if not getattr(s, "cls", False)] + [Scope(self.bindings(n))]
            w = getattr(n, "name", "<lambda>")
            w = w if where == "module level" else f"{where}.{w}"
            for b in [n.body] if isinstance(n, ast.Lambda) else n.body:
                self.visit(b, inner, w)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, scopes, where)
            s = Scope(self.bindings(n))
            s.cls = True
            for b in n.body:
                self.visit(b, scopes + [s], n.name if where == "module level" else f"{where}.{n.name}")
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s = Scope()
            first = True
            for g in n.generators:
                self.visit(g.iter, scopes if first else scopes + [s], where)
                first = False
                s.update(target_names(g.target))
                for c in g.ifs:
                    self.visit(c, scopes + [s], where)
            for c in (n.key, n.value) if isinstance(n, ast.DictComp) else (n.elt,):
                self.visit(c, scopes + [s], where)
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.arguments):
                continue
            # annotations of locals are not evaluated; those of parameters and class fields are (C19 looks at them)
            if isinstance(n, ast.AnnAssign) and c is n.annotation and where != "module level":
                continue
            self.visit(c, scopes, where)


class Scope(set):
    cls = False


def check_names(rep):
    m = get_model()
    for mod in m.modules.values():
        rep.count("name reads resolved", NameWalk(rep, mod).n)
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ImportFrom):
                src = m.rel_module(mod, n.level, n.module)
                if src.split(".")[0] != m.pkg:
                    continue
                for a in n.names:
                    if a.name == "*":
                        continue
                    r = m.resolve_from(src, a.name)
                    if r and r[0] == "missing":
                        rep.find("missing import", f"{mod.name}: {src}.{a.name}", f"{mod.rel}:{n.lineno}", f"{mod.name} imports `{a.name}` from {src}, which does not define it")
    for f in m.funcs:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                r = resolve(f, n)
                if r and r[0] == "missing":
                    rep.find("missing module attribute", f"{f.short}: {r[1]}", f.loc(n), f"{f.short} reads {r[1]}, which the module does not define")
                elif r and r[0] == "ext":
                    bad = missing_ext(r[1])
                    if bad:
                        rep.find("missing library attribute", f"{f.short}: {r[1]}", f.loc(n), f"{f.short} reads {r[1]}, which the standard library does not have")


def missing_ext(dotted):
    parts = dotted.split(".")
    if parts[0] not in sys.stdlib_module_names or parts[0] in ("this", "antigravity"):
        return False
    try:
        o = importlib.import_module(parts[0])
    except Exception:
        return False
    for i, p in enumerate(parts[1:], 2):
        if not hasattr(o, p):
            try:
                importlib.import_module(".".join(parts[:i]))
                o = getattr(o, p)
                continue
            except Exception:
                return True
        o = getattr(o, p)
        if i > 3:
            break
    return False


# ---------------------------------------------------------------- calls
def kind_of(f):
    d = f.dec_names()
    if "staticmethod" in d or "staticproperty" in d:
        return "static"
    if "classmethod" in d or "classproperty" in d:
        return "class"
    if f.cls is not None and f.parent is None:
        return "static" if f.name == "__new__" else "instance"
    return "plain"


KNOWN_DECS = {"staticmethod", "classmethod", "abstractmethod", "property", "wraps", "lru_cache", "cache", "cached_property", "setter", "total_ordering", "classproperty", "staticproperty", "overload", "contextmanager"}


def transparent(f):
    """No decorator changes the signature."""
    if f.cls is None and f.parent is None and not f.decorators:
        return True
    for d, name in zip(f.decorators, f.dec_names()):
        if name in KNOWN_DECS:
            continue
        r = resolve(f.module if f.parent is None else f.parent, d.func if isinstance(d, ast.Call) else d) if isinstance(d, (ast.Name, ast.Attribute, ast.Call)) else None
        if not (r and r[0] == "func"):
            return False
        ws = [n for n in ast.walk(r[1].node) if isinstance(n, ast.FunctionDef) and n is not r[1].node]
        if not any(n.args.vararg is not None and n.args.kwarg is not None for n in ws):
            return False
    return True


def accepts(node, npos, kws, skip=0):
    """None when the call fits the signature, else why not."""
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    required = pos[: len(pos) - len(a.defaults)]
    if skip:
        if not pos and a.vararg is None:
            return "takes no positional argument for the object it is called on"
        pos, required = pos[skip:], required[skip:]
    if npos > len(pos) and a.vararg is None:
        return f"takes {len(pos)} positional arguments, {npos} are given"
    posonly = {x.arg for x in a.posonlyargs}
    given = set(pos[:npos])
    names = (set(pos) - posonly) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k in given:
            return f"gets `{k}` twice"
        if k not in names and a.kwarg is None:
            return f"has no parameter `{k}`"
    for r in required[npos:]:
        if r not in kws:
            return f"misses the argument `{r}`"
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in kws:
            return f"misses the argument `{x.arg}`"
    return None


def class_accepts(c, npos, kws):
    if any(not isinstance(b, Class) and b not in ("ext:abc.ABC", "ext:object", "ext:typing.Generic", "ext:ABC") for b in c.mro()):
        return None
    new = init = None
    for k in c.mro_classes():
        mem = k.members.get("__new__")
        if new is None and mem and mem[0] == "func":
            new = mem[1]
        mem = k.members.get("__init__")
        if init is None:
            if mem and mem[0] == "func":
                init = mem[1]
            elif k.is_dataclass and k.dataclass_opts.get("init", True):
                init = k
    for t in (new, init):
        if isinstance(t, Func) and transparent(t):
            why = accepts(t.node, npos, kws, 1)
            if why:
                return f"{t.short} {why}"
        elif isinstance(t, Class):
            fs = []
            for n, ann, default, owner in t.dataclass_fields():
                if isinstance(default, ast.Call) and getattr(default.func, "id", getattr(default.func, "attr", "")) == "field":
                    opts = {k.arg: k.value for k in default.keywords}
                    if isinstance(opts.get("init"), ast.Constant) and opts["init"].value is False:
                        continue
                    fs.append((n, "default" in opts or "default_factory" in opts))
                else:
                    fs.append((n, default is not None))
            names = [n for n, _ in fs]
            if npos > len(names):
                return f"{t.name} has {len(names)} fields, {npos} values are given"
            for k in kws:
                if k not in names:
                    return f"{t.name} has no field `{k}`"
                if k in names[:npos]:
                    return f"{t.name} gets `{k}` twice"
            for i, (n, d) in enumerate(fs):
                if i >= npos and not d and n not in kws:
                    return f"{t.name} misses the field `{n}`"
    if new is None and init is None and (npos or kws) and all(isinstance(b, Class) or b in ("ext:abc.ABC", "ext:object") for b in c.mro()):
        return f"{c.name}() takes no arguments"
    return None


def self_name(f):
    """(name, class, 'instance'|'class') of the object a method (or a function nested in one) runs on."""
    g = f
    while g is not None:
        if g.cls is not None:
            k = kind_of(g)
            a = g.node.args.posonlyargs + g.node.args.args
            if not a:
                return None
            if g.name == "__new__":
                return a[0].arg, g.cls, "class", g
            if k in ("instance", "class"):
                return a[0].arg, g.cls, k, g
            return None
        g = g.parent
    return None


def rebound(f, name):
    g = f
    while g is not None:
        if name in scope(g).assigned:
            return True
        if g.cls is None and g.parent is not None and name in scope(g).params:
            return True
        g = g.parent
    return False


def instance_attrs():
    """Attribute names stored on anything, and per class those stored in its own methods."""
    anywhere, per = set(), {}
    for f in get_model().funcs:
        c = enclosing_class(f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                per.setdefault(c, set()).add(n.attr)
                anywhere.add(n.attr)
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and isinstance(n.args[-2 if len(n.args) > 2 else 1], ast.Constant):
                nm = getattr(n.func, "id", getattr(n.func, "attr", ""))
                if nm in ("setattr", "__setattr__"):
                    v = n.args[-2].value
                    per.setdefault(c, set()).add(v)
                    anywhere.add(v)
            elif isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("setattr", "__setattr__", "update", "vars"):
                per.setdefault(c, set()).add(None) if getattr(n.func, "id", getattr(n.func, "attr", "")) in ("setattr", "__setattr__") else None
    return anywhere, per


def has_attr(c, name, per):
    if hasattr(object, name) or name in ("__dict__", "__slots__", "__dataclass_fields__", "__annotations__", "__name__", "__qualname__", "__mro__", "__bases__", "__subclasses__", "__abstractmethods__"):
        return True
    for k in c.mro():
        if not isinstance(k, Class):
            if k in ("ext:abc.ABC", "ext:object", "ext:ABC"):
                continue
            try:
                o = builtins
                parts = k[4:].split(".")
                o = getattr(builtins, parts[0], None) if len(parts) == 1 else getattr(importlib.import_module(parts[0]), parts[1], None) if parts[0] in sys.stdlib_module_names else None
            except Exception:
                o = None
            if o is None or hasattr(o, name):
                return True
            continue
        if name in k.members:
            mem = k.members[name]
            if mem[0] != "ann" or k.is_dataclass or mem[0] == "ann" and name in k.anns:
                return True
        s = per.get(k, ())
        if name in s or None in s:
            return True
        if k.lookup("__getattr__") or k.lookup("__getattribute__"):
            return True
    return False


def reach_classes(c, f):
    """Concrete classes on whose objects this method of c runs."""
    m = get_model()
    out = []
    for k in [c] + m.subclasses(c):
        if m.abstract_members(k):
            continue
        l = k.lookup(f.name)
        if l and l[1][0] == "func" and l[1][1] is f or any(True for g in m.funcs if g.cls is not None and k.issub(g.cls) and g.cls is not c and g.name == f.name and uses_super(g)):
            out.append(k)
    return out


def uses_super(f):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for n in own_nodes(f.node, include_nested=True))


def guarded(f, name, attr):
    """hasattr/getattr/isinstance on the object or a handler for the error somewhere in the function: the kinds are narrowed by hand."""
    g = f
    while g is not None:
        for n in own_nodes(g.node, include_nested=True):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "isinstance", "issubclass", "type") and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == name:
                return True
            if isinstance(n, ast.ExceptHandler) and (n.type is None or any(getattr(x, "id", "") in ("AttributeError", "Exception", "BaseException") for x in ast.walk(n.type))):
                return True
            if isinstance(n, ast.Compare) and any(isinstance(x, ast.Attribute) and x.attr == "__class__" and isinstance(x.value, ast.Name) and x.value.id == name for x in ast.walk(n)):
                return True
        if g.cls is not None:
            break
        g = g.parent
    return False


def check_self(rep):
    m = get_model()
    anywhere, per = instance_attrs()
    n_attr = n_call = 0
    for f in m.funcs:
        s = self_name(f)
        if s is None:
            continue
        name, c, kind, g = s
        if rebound(f, name):
            continue
        pm = module_parents(f.module)
        for n in own_nodes(f.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == name):
                continue
            if lookup(f, name) is None:
                continue
            n_attr += 1
            ks = reach_classes(c, g)
            bad = [k for k in ks if not has_attr(k, n.attr, per)]
            if bad and not guarded(f, name, n.attr):
                if n.attr in anywhere and kind == "instance" and len(bad) == len(ks):
                    continue  # stored from outside
                rep.find("missing attribute", f"{f.short}: {n.attr}", f.loc(n), f"{f.short} reads `{name}.{n.attr}`, which {', '.join(sorted(k.name for k in bad)[:4])} does not have")
                continue
            p = pm.get(n)
            if isinstance(p, ast.Call) and p.func is n and not star(p):
                n_call += 1
                npos, kws = len(p.args), {k.arg for k in p.keywords}
                for k in ks:
                    l = k.lookup(n.attr)
                    if not l or n.attr in per.get(k, ()):
                        continue
                    why = member_accepts(l[1], npos, kws, kind, name)
                    if why and not guarded(f, name, n.attr):
                        rep.find("call does not fit", f"{f.short}: {n.attr} of {l[0].name}", f.loc(p), f"{f.short} calls `{ast.unparse(p)[:120]}`: {l[0].name}.{n.attr} {why}")
                        break
    rep.count("reads of own attributes checked against every kind", n_attr)
    rep.count("calls of own methods checked against every kind", n_call)


def star(c):
    return any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords)


def member_accepts(mem, npos, kws, kind, name="self"):
    """mem called through an instance ('instance') or a class ('class')."""
    if mem[0] == "assign":
        if isinstance(mem[1], ast.Lambda):
            return accepts(mem[1], npos, kws, 1 if kind == "instance" else 0)
        return None
    if mem[0] != "func":
        return None
    f = mem[1]
    d = f.dec_names()
    if any(x in ("property", "cached_property", "classproperty", "staticproperty", "abstractproperty") for x in d) or not transparent(f):
        return None
    k = kind_of(f)
    skip = 0 if k == "static" and f.name != "__new__" else 1 if k == "class" or kind == "instance" else 0
    if f.name == "__new__":
        skip = 0
    return accepts(f.node, npos, kws, skip)


def check_calls(rep):
    m = get_model()
    n_call = 0
    method_names = {}
    nonfunc = set(instance_attrs()[0])
    for c in m.classes:
        for n, mem in c.members.items():
            method_names.setdefault(n, []).append((c, mem))
    ext_names = ext_attr_names()
    for f in list(m.funcs) + list(m.modules.values()):
        nodes = own_nodes(f.node) if isinstance(f, Func) else Definite.module_nodes(f.tree)
        for n in nodes:
            if not isinstance(n, ast.Call) or star(n):
                continue
            npos, kws = len(n.args), {k.arg for k in n.keywords}
            fn = n.func
            why, target = None, ""
            r = (resolve(f, fn) if isinstance(f, Func) else m.resolve_expr(f, fn)) if isinstance(fn, (ast.Name, ast.Attribute)) else None
            if isinstance(fn, ast.Name) and isinstance(f, Func) and fn.id in scope(f).assigned:
                r = None
            if r and r[0] == "class":
                n_call += 1
                why, target = class_accepts(r[1], npos, kws), r[1].name
                ab = m.abstract_members(r[1])
                if ab and any(b == "ext:abc.ABC" or b == "ext:ABC" for b in r[1].mro()):
                    why = f"is abstract ({', '.join(sorted(ab)[:3])} not defined)"
            elif r and r[0] == "func":
                g = r[1]
                if not transparent(g):
                    continue
                n_call += 1
                if g.cls is not None and g.parent is None:
                    sn = self_name(f) if isinstance(f, Func) else None
                    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and sn and fn.value.id == sn[0]:
                        continue  # check_self
                    why = member_accepts(("func", g), npos, kws, "class")
                else:
                    why = accepts(g.node, npos, kws)
                target = g.short
            elif isinstance(fn, ast.Attribute) and isinstance(f, Func):
                v = fn.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                    for g in callees(f, n):
                        n_call += 1
                        sn = self_name(f)
                        why = member_accepts(("func", g), npos, kws, "class" if g.name == "__new__" else "instance")
                        target = g.short
                        if why:
                            break
                else:
                    sn = self_name(f)
                    if sn and isinstance(v, ast.Name) and v.id == sn[0]:
                        continue
                    if isinstance(v, (ast.Name, ast.Attribute)):
                        rv = resolve(f, v)
                        if rv and rv[0] in ("ext", "module", "builtin", "class"):
                            continue
                    if isinstance(v, ast.Name) and v.id in ("cls",):
                        continue
                    cands = method_names.get(fn.attr)
                    if not cands or fn.attr in ext_names or fn.attr in nonfunc:
                        continue
                    n_call += 1
                    whys = [member_accepts(mem, npos, kws, "instance") for c, mem in cands]
                    whys2 = [member_accepts(mem, npos, kws, "class") for c, mem in cands if mem[0] == "func"]
                    if all(whys) and all(whys2):
                        why, target = whys[0], fn.attr
            if why:
                where = f.short if isinstance(f, Func) else f.name
                loc = f.loc(n) if isinstance(f, Func) else f"{f.rel}:{n.lineno}"
                rep.find("call does not fit", f"{where}: {target}", loc, f"{where} calls `{ast.unparse(n)[:120]}`: {target} {why}")
    rep.count("calls checked against signatures", n_call)


def ext_attr_names():
    import collections
    import fractions

    out = set()
    for t in (list, dict, str, set, tuple, int, float, bytes, complex, frozenset, collections.defaultdict, collections.OrderedDict, collections.Counter, collections.deque, fractions.Fraction, type, BaseException, property, type(len), type(lambda: 0)):
        out.update(dir(t))
    return out


# ---------------------------------------------------------------- attributes of anything
def check_attributes(rep):
    """An attribute read that nothing in the program, and no standard value the program handles, has."""
    m = get_model()
    known = ext_attr_names() | set(instance_attrs()[0])
    for c in m.classes:
        known.update(c.members)
        known.update(c.anns)
    for mod in m.modules.values():
        known.update(mod.ns)
    ext_mods = set()
    for mod in m.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                ext_mods.update(a.name.split(".")[0] for a in n.names)
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                ext_mods.add(n.module.split(".")[0])
    import types

    for e in sorted(ext_mods):
        if e in sys.stdlib_module_names:
            try:
                o = importlib.import_module(e)
            except Exception:
                continue
            for k, v in vars(o).items():
                known.add(k)
                if isinstance(v, type):
                    known.update(dir(v))
    known.update(NUMPY)
    n_attr = 0
    for f in m.funcs:
        if not lib(f.module):
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                r = resolve(f, n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                if r and r[0] == "ext":
                    continue
                n_attr += 1
                if n.attr not in known and not caught(f, n):
                    rep.find("unknown attribute", f"{f.short}: {n.attr}", f.loc(n), f"{f.short} reads `{ast.unparse(n)[:100]}`: nothing in the program has an attribute `{n.attr}`")
    rep.count("attribute reads checked", n_attr)


NUMPY = {"shape", "ndim", "dtype", "size", "T", "reshape", "astype", "flatten", "ravel", "tolist", "all", "any", "sum", "dot", "item", "transpose", "fill", "argmax", "argmin", "max", "min", "mean", "copy", "flat"}


def caught(f, node):
    pm = module_parents(f.module)
    n = node
    while n is not None and n is not f.node:
        p = pm.get(n)
        if isinstance(p, ast.Try) and n in p.body and any(h.type is None or any(getattr(x, "id", "") in ("AttributeError", "Exception", "BaseException") for x in ast.walk(h.type)) for h in p.handlers):
            return True
        n = p
    return False


# ---------------------------------------------------------------- narrowed receivers
def check_narrowed(rep):
    """`x.attr` where the program itself established that x is one of some kinds, none of which has attr."""
    m = get_model()
    anywhere, per = instance_attrs()
    count = 0

    def classes_of(f, e):
        es = e.elts if isinstance(e, ast.Tuple) else [e]
        out = []
        for x in es:
            r = resolve(f, x) if isinstance(x, (ast.Name, ast.Attribute)) else None
            if not (r and r[0] == "class"):
                return None
            out.append(r[1])
        return out

    def narrowings(f, test):
        """names known to be instances when test is true: {name: [classes]}"""
        out = {}
        parts = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
        for t in parts:
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
                cs = classes_of(f, t.args[1])
                if cs:
                    out.setdefault(t.args[0].id, []).append(cs)
        return out

    def visit(f, nodes, narrow):
        nonlocal count
        for n in nodes:
            walk(f, n, narrow)

    def stores(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def without(narrow, names):
        return {k: v for k, v in narrow.items() if k not in names}

    def merge(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, []) + v
        return out

    def walk(f, n, narrow):
        nonlocal count
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in narrow:
            sets = narrow[n.value.id]
            count += 1
            # the kinds all narrowings allow
            ks = None
            for cs in sets:
                s = {k for c in cs for k in [c] + m.subclasses(c)}
                ks = s if ks is None else ks & s
            ks = {k for k in ks or () if not m.abstract_members(k)}
            if ks and not any(has_attr(k, n.attr, per) for k in ks) and n.attr not in anywhere and not caught(f, n):
                rep.find("missing attribute", f"{f.short}: {n.value.id}.{n.attr}", f.loc(n), f"{f.short} reads `{n.value.id}.{n.attr}` where `{n.value.id}` is known to be {', '.join(sorted(k.name for k in ks)[:4])}, which has no such attribute")
        if isinstance(n, FUNC) or isinstance(n, ast.ClassDef):
            return
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            walk(f, n.test, narrow)
            nw = narrowings(f, n.test)
            body = n.body if isinstance(n.body, list) else [n.body]
            st = set().union(*[stores(x) for x in body]) if body else set()
            inner = merge(without(narrow, st), without(nw, st))
            for x in body:
                walk(f, x, inner)
            other = n.orelse if isinstance(n.orelse, list) else [n.orelse]
            for x in other:
                walk(f, x, narrow)
            return
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And):
            cur = narrow
            for v in n.values:
                walk(f, v, cur)
                cur = merge(cur, narrowings(f, v))
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = narrow
            for g in n.generators:
                walk(f, g.iter, cur)
                cur = without(cur, set(target_names(g.target)))
                for c in g.ifs:
                    walk(f, c, cur)
                    cur = merge(cur, narrowings(f, c))
            for c in (n.key, n.value) if isinstance(n, ast.DictComp) else (n.elt,):
                walk(f, c, cur)
            return
        if isinstance(n, (ast.For, ast.AsyncFor)):
            walk(f, n.iter, narrow)
            inner = without(narrow, stores(n))
            for x in n.body + n.orelse:
                walk(f, x, inner)
            return
        for c in ast.iter_child_nodes(n):
            walk(f, c, narrow)

    for f in m.funcs:
        visit(f, [f.node.body] if isinstance(f.node, ast.Lambda) else f.node.body, {})
    rep.count("attribute reads on narrowed objects", count)


# ---------------------------------------------------------------- operations per kind
def only_refuses(f):
    """The body does nothing but raise NotImplementedError (or is an empty stub)."""
    if isinstance(f.node, ast.Lambda):
        return False
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not body:
        return True
    if len(body) == 1 and isinstance(body[0], ast.Pass):
        return "abstractmethod" in f.dec_names()
    if len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None:
        e = body[0].exc
        e = e.func if isinstance(e, ast.Call) else e
        return getattr(e, "id", "") == "NotImplementedError"
    return False


def public_kinds():
    """The kinds of expressions a user can meet (pattern placeholders are not)."""
    m = get_model()
    E = m.cls("Expr")
    return [c for c in m.concrete_expr_classes() if c.module is E.module or (lambda r: r and r[0] == "class" and r[1] is c)(m.resolve(m.modules[m.pkg], c.name))]


def check_operations(rep):
    m = get_model()
    E = m.cls("Expr")
    n = 0
    for c in public_kinds():
        names = set()
        for k in c.mro_classes():
            names.update(k.members)
        for name in sorted(names):
            l = c.lookup(name)
            if not l or l[1][0] != "func":
                continue
            n += 1
            if only_refuses(l[1][1]):
                rep.find("operation not implemented", f"{c.name}.{name}", l[1][1].loc(), f"{name} is not implemented for {c.name}: {l[1][1].short} only refuses")
        # expandable by its own rule, expanded by the default that refuses
        a, b = c.lookup("_expandable"), c.lookup("_expand")
        d = c.lookup("expandable")
        if a and b and b[0] is E and (a[0] is not E or d and d[0] is not E):
            rep.find("operation not implemented", f"{c.name}._expand", b[1][1].loc(), f"{c.name} says when it is expandable ({a[1][1].short}) but has no _expand")
    # every concrete class of the other hierarchies is complete
    for c in m.classes:
        if m.subclasses(c) or not any(b in ("ext:abc.ABC", "ext:ABC") for b in c.mro()):
            continue
        ab = m.abstract_members(c)
        if ab and lib(c.module):
            rep.find("operation not implemented", f"{c.name}: {', '.join(sorted(ab))}", f"{c.module.rel}:{c.node.lineno}", f"{c.name} does not define {', '.join(sorted(ab))}, so none can be made")
    rep.count("operations per kind", n)


def structural(rep):
    check_names(rep)
    check_bound(rep)
    check_self(rep)
    check_calls(rep)
    check_attributes(rep)
    check_narrowed(rep)
    check_operations(rep)


# ---------------------------------------------------------------- the paths
def program_error(r, inner_none=False):
    if r.exc in ERRORS:
        return True
    what = str(r.eargs[0]) if r.eargs else ""
    if r.exc == "TypeError" and what:
        if any(w in what for w in ARITY):
            return True
        # product-to-sum: whether an inner rewriting applies is not known to the analysis, and None stands for "does not"
        return what.startswith(MISUSE) and not inner_none
    return r.exc == "IndexError" or r.exc == "ValueError" and what in ("shapes", "unpack", "operands could not be broadcast")


def consistent(it):
    """False when an expression contains a variable but is none, and none of its parts contains it."""
    w = it.world
    for key, truth in list(w.lits.items()):
        if key[0] != "contains" or not truth:
            continue
        t, uid = key[1], key[2]
        x = w.leaf.get(w.leaf_rep(t[1])) if t[0] == "a" else None
        if not isinstance(x, ExprV):
            continue
        x = x.rep()
        c = x.exact
        if c is None or c.name == "Symbol" or not x.f:
            continue
        parts = []
        for v in x.f.values():
            if isinstance(v, PList):
                parts += [p for p in v.items if isinstance(p, ExprV)]
            elif isinstance(v, ExprV):
                parts.append(v)
        if parts and all(without(it, p, uid) for p in parts):
            return False
    return True


def without(it, p, uid):
    p = p.rep()
    if p.classes <= it.kinds.nums:
        return True
    try:
        return it.world.lits.get(("contains", p.term(), uid)) is False
    except Undecided:
        return False


def safe(e, total=False):
    """total: rewriting steps are offered every expression, so refusing one with an error is a defect as well."""
    n = copy.copy(e)
    n.name, n.rule, n.no_side = f"no internal error in {e.name}", "internal error", True

    def go(it, inner=e.go):
        try:
            inner(it)
        except Raised as r:
            if (program_error(r, "product_to_sum" in e.name) or total and r.exc == "ValueError") and consistent(it):
                what = f"{r.exc} {r.eargs[0] if r.eargs else ''}".strip()
                return [Claim(T.ONE, T.ZERO, what, loc=getattr(r, "loc", "") or None, note=f" {r.exc}: {r.eargs[0] if r.eargs else ''} {r.loc} surfaces")]
            raise
        return [Claim(T.ONE, T.ONE, "completes")]

    n.go = go
    return n


def entries():
    from . import c05, c07, c08, c09, c10, c11, c13, c14, c21, c22, c23, c24

    return [safe(e, mod in (c10, c11, c24)) for mod in (c05, c07, c08, c09, c10, c11, c13, c14, c21, c22, c23, c24) for e in mod.entries()]


def run(rep):
    structural(rep)
    return engine.check(
        rep, entries, 100,
        "Every name read is resolved against its scopes; every local read must be preceded by an assignment on every path; every attribute read through self must exist for every kind the method runs on; every call that resolves to the package must fit the signature (through instances, classes, super, decorators and dataclass constructors); every operation of the interface must be implemented by every kind. "
        "Then, path-sensitively, the obligations of the constructor, operator, derivative, substitution, trigonometric, simplification, integration-step, equality, polynomial, expansion and definite-integral checks are explored again: no feasible path may end in an AttributeError, NameError, UnboundLocalError, KeyError, ImportError, NotImplementedError or a call that does not fit.",
        "no internal programming error")
