"""Which lists belong to an expression or to the caller, and who changes them (flow-sensitive inside a function, summaries across calls)."""
import ast

from .astutil import callees, enclosing_class, func_of_node, own_nodes, params, resolve, scope
from .flow import reaching
from .model import Class, Func, get_model

LIST_MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__iadd__"}
INIT = {"__init__", "__new__", "__post_init__"}


def exprs():
    m = get_model()
    e = m.cls("Expr")
    out = {e} | set(m.subclasses(e))
    for c in m.concrete_expr_classes():
        out |= set(c.mro_classes())
    return out


def expr_fields():
    out = set()
    for c in exprs():
        for n, *_ in c.dataclass_fields():
            if not n.startswith("_"):
                out.add(n)
    return out | {"value"}


def list_fields():
    """Fields of expressions that hold a list."""
    out = set()
    for c in exprs():
        for n, ann, *_ in c.dataclass_fields():
            if ann is not None and any(w in (ann if isinstance(ann, str) else ast.unparse(ann)) for w in ("List", "list[", "Sequence")):
                out.add(n)
    return out


def bind_args(call, g, bound):
    """[(param name, argument expression)] of a call of Func g; bound: the first parameter is implied."""
    a = g.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if bound and names:
        names = names[1:]
    out = []
    for i, x in enumerate(call.args):
        if isinstance(x, ast.Starred):
            break
        if i < len(names):
            out.append((names[i], x))
    for k in call.keywords:
        if k.arg is not None:
            out.append((k.arg, k.value))
    return out


def targets(f, call):
    """[(Func, bound?)] a call may run."""
    out = []
    for g in callees(f, call):
        if isinstance(g, Class):
            for n in ("__new__", "__init__"):
                l = g.lookup(n)
                if l and l[1][0] == "func":
                    out.append((l[1][1], True))
        else:
            static = "staticmethod" in g.dec_names()
            unbound = isinstance(call.func, ast.Attribute) and (resolve(f, call.func.value) or (None,))[0] == "class" and "classmethod" not in g.dec_names()
            sup = isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Call)
            out.append((g, g.cls is not None and not static and not (unbound and not sup) and g.name != "__new__"))
    return out


class Owners:
    def __init__(self):
        self.model = get_model()
        self.lists = list_fields()
        self.fields = expr_fields()
        self.kinds = exprs()
        self.ret = {}
        self.calls = []
        self.sites = []
        self.events = []  # (Func, node, what, owner text)
        self.mutates = {}  # (Func, param) -> (Func, node, what)
        for f in self.model.funcs:
            self.scan(f)
        self.fix()

    # ------------------------------------------------------------ where a value comes from
    def fresh_object(self, f, e, depth=0):
        """Is e an object made by this very function (object construction or copy)?"""
        if isinstance(e, ast.Name):
            if e.id == "self" and f.name in INIT:
                return True
            ds = reaching(f).get(e)
            if not ds or depth > 4:
                return False
            return all(d[0] == "def" and d[3] == "=" and d[2] is not None and self.fresh_object(f, d[2], depth + 1) for d in ds)
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
            if n in ("__new__", "copy", "deepcopy"):
                return True
            return any(isinstance(g, Class) and g not in self.kinds for g in callees(f, e))
        return False

    def sources(self, f, e, depth=0):
        """Set of ("owned", text) / ("param", Func, name) the list value e may be identical with."""
        if depth > 8 or e is None:
            return set()
        if isinstance(e, ast.Name):
            ds = reaching(f).get(e)
            if ds is None:
                return self.outer(f, e.id, depth)
            out = set()
            for d in ds:
                if d[0] == "param":
                    out.add(("param", f, d[1]))
                elif d[0] == "def" and d[3] in ("=", "walrus"):
                    out |= self.sources(f, d[2], depth + 1)
            return out
        if isinstance(e, ast.Attribute):
            if e.attr in self.lists and not self.fresh_object(f, e.value):
                if isinstance(e.value, ast.Name) and e.value.id == "self" and (enclosing_class(f) not in self.kinds or f in self.only_init()):
                    return set()
                return {("owned", ast.unparse(e))}
            return set()
        if isinstance(e, ast.IfExp):
            return self.sources(f, e.body, depth + 1) | self.sources(f, e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.sources(f, v, depth + 1)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.sources(f, e.value, depth + 1)
        if isinstance(e, ast.Call):
            r = resolve(f, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "ext" and r[1] == "typing.cast" and len(e.args) == 2:
                return self.sources(f, e.args[1], depth + 1)
            if isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and e.args[1].value in self.lists:
                return {("owned", ast.unparse(e))}
            for g in callees(f, e):
                if isinstance(g, Func):
                    o = self.returns_owned(g)
                    if o and not (isinstance(e.func, ast.Attribute) and self.fresh_object(f, e.func.value)):
                        return {("owned", f"{ast.unparse(e)} (= {o})")}
            return set()
        return set()

    def outer(self, f, name, depth):
        g = f.parent
        while g is not None:
            s = scope(g)
            if name in s.assigned:
                out = set()
                for v in s.assigned[name]:
                    if v is not None:
                        out |= self.sources(g, v, depth + 1)
                return out | ({("param", g, name)} if name in s.params else set())
            if name in s.params:
                return {("param", g, name)}
            g = g.parent
        return set()

    def returns_owned(self, g):
        if g not in self.ret:
            self.ret[g] = None
            if isinstance(g.node, ast.Lambda):
                vals = [g.node.body]
            else:
                vals = [n.value for n in own_nodes(g.node) if isinstance(n, ast.Return) and n.value is not None]
            for v in vals:
                for s in self.sources(g, v):
                    if s[0] == "owned":
                        self.ret[g] = s[1]
        return self.ret[g]

    def only_init(self):
        """Methods of expressions reached from constructors only (they complete an object under construction)."""
        if not hasattr(self, "_oi"):
            callers = {}
            for f in self.model.funcs:
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        for g in callees(f, n):
                            if isinstance(g, Func):
                                callers.setdefault(g, set()).add(f)
            self._oi = set()
            for f in self.model.funcs:
                if f.cls in self.kinds and f.name.startswith("_") and not f.name.startswith("__") and callers.get(f) and all(c.name in INIT and c.cls in self.kinds for c in callers[f]):
                    self._oi.add(f)
                # a private method nobody calls changes nothing
                if f.cls in self.kinds and f.name.startswith("_") and not f.name.startswith("__") and not callers.get(f) and not f.dec_names():
                    self._oi.add(f)
        return self._oi

    # ------------------------------------------------------------ who changes what
    def listish(self, f, name):
        for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            if a.arg == name and a.annotation is not None:
                t = ast.unparse(a.annotation)
                return any(w in t for w in ("List", "list", "Sequence", "array"))
        return False

    def scan(self, f):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                self.calls.append((f, n))
                if isinstance(n.func, ast.Attribute) and n.func.attr in LIST_MUTATORS:
                    self.site(f, n, n.func.value, f"{n.func.attr}()")
                if isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and not (isinstance(n.args[0], ast.Name) and n.args[0].id == "self" and f.name in INIT):
                    if isinstance(n.args[1], ast.Constant) and n.args[1].value in self.fields or not isinstance(n.args[1], ast.Constant):
                        self.store(f, n, n.args[0], "setattr")
                if isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__" and len(n.args) >= 2 and isinstance(n.args[-2], ast.Constant) and n.args[-2].value in self.fields:
                    self.store(f, n, n.args[0] if len(n.args) == 3 else n.func.value, "__setattr__")
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("shuffle",) and n.args:
                    self.site(f, n, n.args[0], "shuffle()")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    for x in ast.walk(t) if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            if isinstance(x.value, ast.Attribute) and x.value.attr == "__dict__":
                                if not isinstance(x.slice, ast.Constant) or x.slice.value in self.fields:
                                    self.store(f, n, x.value.value, "__dict__ item")
                            else:
                                self.site(f, n, x.value, "item assignment" if not isinstance(n, ast.Delete) else "del of an item")
                        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in self.fields:
                            self.store(f, n, x.value, f"field {x.attr} is set")
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Mult)) and self.aug(f, n):
                    for s in self.sources(f, n.target):
                        if s[0] == "owned" or self.listish(s[1], s[2]):
                            self.note(f, n, s, "augmented assignment")

    def aug(self, f, n):
        return True

    def site(self, f, n, e, what):
        for s in self.sources(f, e):
            self.note(f, n, s, what)

    def note(self, f, n, s, what):
        self.sites.append((f, n))
        if s[0] == "owned":
            self.events.append((f, n, what, f"the list {s[1]} of an expression"))
        else:
            self.mutates.setdefault((s[1], s[2]), (f, n, what))

    def store(self, f, n, x, what):
        self.sites.append((f, n))
        if self.fresh_object(f, x):
            return
        if isinstance(x, ast.Name) and x.id in ("self", "cls"):
            c = enclosing_class(f)
            if c not in self.kinds or f.name in INIT or f in self.only_init():
                return
        if self.not_expr(f, x):
            return
        self.events.append((f, n, what, f"the existing object {ast.unparse(x)}"))

    def not_expr(self, f, x):
        """Annotated as something that is no expression."""
        if isinstance(x, ast.Name):
            for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
                if a.arg == x.id and a.annotation is not None:
                    r = resolve(f, a.annotation) if isinstance(a.annotation, (ast.Name, ast.Attribute)) else None
                    return bool(r) and r[0] == "class" and r[1] not in self.kinds
        return False

    def fix(self):
        work = True
        self.call_events = {}
        while work:
            work = False
            for f, c in self.calls:
                for g, bound in targets(f, c):
                    for p, e in bind_args(c, g, bound):
                        hit = self.mutates.get((g, p))
                        if hit is None:
                            continue
                        for s in self.sources(f, e):
                            if s[0] == "owned":
                                self.call_events[(f, c, p)] = (f, c, f"{g.short} changes its argument {p} ({hit[2]})", f"the list {s[1]} of an expression")
                            elif (s[1], s[2]) not in self.mutates:
                                self.mutates[(s[1], s[2])] = (f, c, f"call of {g.short}: {hit[2]}")
                                work = True
        self.events += list(self.call_events.values())

    def public(self):
        """Public functions and constructors that change a list handed in."""
        m = self.model
        for (f, p), (g, n, what) in self.mutates.items():
            r = m.resolve_from(m.pkg, f.name) if f.cls is None and f.parent is None else None
            exported = bool(r) and r[0] == "func" and r[1] is f
            ctor = f.cls in self.kinds and f.name in ("__new__", "__init__") and p not in ("self", "cls")
            if exported or ctor:
                yield f, p, g, n, what
