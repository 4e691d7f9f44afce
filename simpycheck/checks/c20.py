"""C20: results are deterministic (no dependence on set order, hashes, addresses, randomness, the clock or the environment)."""
import ast

from ..astutil import FUNC, body_of, callees, enclosing_class, func_of_node, lookup, module_parents, own_nodes, resolve, scope
from ..model import Class, Func, get_model

SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
ORDER_FREE = {"len", "any", "all", "set", "frozenset", "bool", "sum", "fsum", "prod"}  # order-insensitive consumers
NONDET = {
    "random": "random numbers", "secrets": "random numbers", "uuid": "random identifiers", "os.urandom": "random numbers", "numpy.random": "random numbers",
    "time": "the clock", "datetime": "the clock", "os.environ": "the environment", "os.getenv": "the environment", "os.getpid": "the process id",
    "threading": "thread scheduling", "concurrent": "thread scheduling", "multiprocessing": "process scheduling", "asyncio": "task scheduling",
    "platform": "the platform", "socket": "the host", "getpass": "the user", "locale": "the locale", "gc": "the garbage collector", "weakref": "garbage collection",
    "tracemalloc": "memory", "resource": "resource use", "signal": "signals",
}


def nondet_kind(dotted):
    parts = dotted.split(".")
    for i in range(len(parts), 0, -1):
        k = ".".join(parts[:i])
        if k in NONDET:
            return k, NONDET[k]
    return None


class Sets:
    """Which expressions are sets (syntactic type inference, interprocedural through returns of package functions)."""

    def __init__(self):
        self.ret = {}

    def is_set(self, f, e, depth=0):
        if depth > 6 or e is None:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.IfExp):
            return self.is_set(f, e.body, depth + 1) or self.is_set(f, e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            return any(self.is_set(f, v, depth + 1) for v in e.values)
        if isinstance(e, ast.NamedExpr):
            return self.is_set(f, e.value, depth + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(f, e.left, depth + 1) or self.is_set(f, e.right, depth + 1) or self._keys(e.left) or self._keys(e.right)
        if isinstance(e, ast.Call):
            r = resolve(f, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "builtin" and r[1] in ("set", "frozenset"):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in SET_METHODS and self.is_set(f, e.func.value, depth + 1):
                return True
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("set", "frozenset"):
                return True
            cs = callees(f, e, cha=False) if isinstance(f, Func) else []
            return any(self.returns_set(c, depth + 1) for c in cs if isinstance(c, Func))
        if isinstance(e, ast.Name):
            r = lookup(f, e.id)
            if r and r[0] == "local":
                return any(self.is_set(r[1], v, depth + 1) for v in scope(r[1]).assigned.get(e.id, []) if v is not None)
            if r and r[0] == "assign" and r[2] is not None:
                return self.is_set(r[1], r[2], depth + 1)
            if r and r[0] == "param":
                a = next((x for x in ast.walk(r[1].node.args) if isinstance(x, ast.arg) and x.arg == e.id), None)
                if a is not None and a.annotation is not None:
                    s = ast.unparse(a.annotation)
                    return s.split("[")[0].split(".")[-1].lower() in ("set", "frozenset")
            return False
        if isinstance(e, ast.Attribute):
            # attribute holding a set (assigned somewhere in the package)
            model = get_model()
            for g in model.funcs:
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(n.value, (ast.Set, ast.SetComp)):
                                return True
                            if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("set", "frozenset"):
                                return True
            for c in model.classes:
                m = c.members.get(e.attr)
                if m and m[0] == "assign" and isinstance(m[1], (ast.Set, ast.SetComp)):
                    return True
        return False

    def _keys(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "items") and not e.args

    def returns_set(self, g, depth):
        if g in self.ret:
            return self.ret[g]
        self.ret[g] = False
        v = False
        if isinstance(g.node, ast.Lambda):
            v = self.is_set(g, g.node.body, depth)
        else:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Return) and n.value is not None and self.is_set(g, n.value, depth):
                    v = True
        self.ret[g] = v
        return v


def _int_elements(e):
    """Sets of small ints iterate in a fixed order."""
    if isinstance(e, ast.Set):
        return all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in e.elts)
    return False


def _consumer_ok(rep, f, n, pm):
    """n iterates a set in an ordered way (list/dict comprehension, generator, call argument). Is the order lost again right away?"""
    p = pm.get(n)
    if isinstance(p, ast.Call) and n in p.args:
        r = resolve(f, p.func) if isinstance(p.func, (ast.Name, ast.Attribute)) else None
        if r and r[0] in ("builtin", "ext"):
            nm = r[1].split(".")[-1]
            if nm in ORDER_FREE:
                return True
            if nm in ("sorted", "min", "max") and not any(k.arg == "key" for k in p.keywords):
                return True
        if isinstance(p.func, ast.Attribute) and p.func.attr in ("update", "union", "difference", "intersection", "issubset", "issuperset", "isdisjoint", "symmetric_difference", "difference_update", "intersection_update"):
            return True
    if isinstance(p, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops) and n in p.comparators:
        return True
    if isinstance(p, ast.comprehension):
        comp = pm.get(p)
        if isinstance(comp, ast.SetComp):
            return True
    return False


def _check_sets(rep, sets, f, roots, pm):
    for n in roots:
        if isinstance(n, (ast.For, ast.AsyncFor)):
            it = n.iter
            if _unwrap_set(sets, f, it) and not _int_elements(it):
                rep.count("set iterations")
                if not _order_free_body(n):
                    _report_set(rep, f, n, "for loop")
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            for i, g in enumerate(n.generators):
                if _unwrap_set(sets, f, g.iter) and not _int_elements(g.iter):
                    rep.count("set iterations")
                    if isinstance(n, ast.SetComp) or _consumer_ok(rep, f, n, pm):
                        continue
                    _report_set(rep, f, n, type(n).__name__)
        elif isinstance(n, ast.Call):
            fn = n.func
            r = resolve(f, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
            nm = r[1].split(".")[-1] if r and r[0] in ("builtin", "ext") else (fn.attr if isinstance(fn, ast.Attribute) else None)
            for a in n.args:
                star = isinstance(a, ast.Starred)
                x = a.value if star else a
                if not sets.is_set(f, x) or _int_elements(x):
                    continue
                rep.count("set uses as argument")
                if star or nm in ("list", "tuple", "iter", "enumerate", "zip", "map", "filter", "reversed", "join", "next", "array", "fromkeys", "extend", "reduce", "deque", "cycle", "chain", "choice", "choices"):
                    if not star and _consumer_ok(rep, f, n, pm):
                        continue
                    _report_set(rep, f, n, f"call of {nm or ast.unparse(fn)}")
                elif nm in ("sorted", "min", "max") and any(k.arg == "key" for k in n.keywords):
                    _report_set(rep, f, n, f"{nm} with a key (ties keep the set order)")
                elif nm in ("str", "repr", "format") and r and r[0] == "builtin":
                    _report_set(rep, f, n, "text of a set")
            if isinstance(fn, ast.Attribute) and fn.attr == "pop" and not n.args and sets.is_set(f, fn.value):
                _report_set(rep, f, n, "set.pop()")
        elif isinstance(n, ast.Assign):
            if any(isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) > 0 for t in n.targets) and sets.is_set(f, n.value):
                t = n.targets[0]
                if not (isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 1):
                    _report_set(rep, f, n, "unpacking of a set")
        elif isinstance(n, ast.FormattedValue) and sets.is_set(f, n.value):
            p = pm.get(n)
            q = pm.get(p)
            while q is not None and not isinstance(q, (ast.Raise, ast.stmt)):
                q = pm.get(q)
            if not isinstance(q, (ast.Raise, ast.Assert)):
                _report_set(rep, f, n, "text of a set")


def _unwrap_set(sets, f, e):
    if sets.is_set(f, e):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "enumerate", "iter", "reversed", "zip") and e.args:
        return False  # reported at the inner call already
    return False


def _order_free_body(loop):
    """A loop whose body only tests / accumulates into sets or counters / returns constants is order-insensitive."""
    for st in loop.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                return False
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return False
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                v = n.value
                if not isinstance(v, ast.Constant):
                    tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(not isinstance(t, ast.Subscript) for t in tgts) and not _used_only_inside(loop, tgts):
                        return False
                    if any(isinstance(t, ast.Subscript) for t in tgts):
                        return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "setdefault", "write", "join"):
                return False
            if isinstance(n, ast.AugAssign) and not (isinstance(n.value, ast.Constant) and isinstance(n.op, (ast.Add, ast.Sub, ast.BitOr, ast.BitAnd))):
                return False
            if isinstance(n, ast.Break):
                return False
    return True


def _used_only_inside(loop, tgts):
    return all(isinstance(t, ast.Name) for t in tgts)


def _report_set(rep, f, n, how):
    where = f.short if isinstance(f, Func) else f.name
    loc = f.loc(n) if isinstance(f, Func) else f"{f.rel}:{n.lineno}"
    rep.find("set-order", where, loc, f"the iteration order of a set becomes observable ({how})")


# ------------------------------------------------------------------ nondeterministic sources
NAME_SINKS = {"Symbol", "symbols", "Any_"}
TEXT_METHODS = {"join", "format", "lower", "upper", "replace", "strip", "zfill", "title", "encode", "decode", "hex"}


class Taint:
    def __init__(self, rep):
        self.rep = rep
        self.tainted_funcs = {}  # Func -> kind
        self.uses = []

    def sources(self, f):
        for n in own_nodes(f.node) if isinstance(f, Func) else f:
            if isinstance(n, ast.Call):
                r = None
                if isinstance(n.func, (ast.Name, ast.Attribute)):
                    r = resolve(self.ctx, n.func)
                if r and r[0] in ("ext",):
                    k = nondet_kind(r[1])
                    if k:
                        yield n, r[1], k[1]
                elif r and r[0] == "builtin" and r[1] in ("id", "hash"):
                    yield n, r[1], "object identity or hash values"
                elif r and r[0] == "builtin" and r[1] == "object.__hash__":
                    yield n, r[1], "hash values"
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "__hash__":
                    yield n, "__hash__", "hash values"
                elif isinstance(self.ctx, Func):
                    for c in callees(self.ctx, n, cha=False):
                        if c in self.tainted_funcs:
                            yield n, c.short, self.tainted_funcs[c]
            elif isinstance(n, ast.Lambda):
                g = func_of_node(n) if isinstance(self.ctx, Func) else None
                if g in self.tainted_funcs:
                    yield n, "a function", self.tainted_funcs[g]
            elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                p = module_parents(self.ctx.module).get(n) if isinstance(self.ctx, Func) else None
                if isinstance(p, ast.Attribute) or isinstance(p, ast.Call) and p.func is n:
                    continue
                r = resolve(self.ctx, n)
                if r and r[0] == "ext" and r[1] in ("os.environ",):
                    yield n, r[1], "the environment"
                elif r and r[0] == "builtin" and r[1] in ("id", "hash"):
                    yield n, f"{r[1]} as a function", "object identity or hash values"
                elif r and r[0] == "ext" and nondet_kind(r[1]) and isinstance(p, (ast.Call, ast.keyword)):
                    yield n, f"{r[1]} as a function", nondet_kind(r[1])[1]
                elif r and r[0] in ("func", "local") and isinstance(p, (ast.Call, ast.keyword)):
                    gs = [r[1]] if r[0] == "func" else [g for g in self.tainted_funcs if g.parent is r[1] and g.name == getattr(n, "id", None)]
                    for g in gs:
                        if g in self.tainted_funcs:
                            yield n, g.short, self.tainted_funcs[g]

    def run(self):
        model = get_model()
        changed = True
        rounds = 0
        self.seen_sites = set()
        findings = {}
        while changed and rounds < 8:
            changed = False
            rounds += 1
            for f in model.funcs:
                if ".debug" in f.module.name:
                    continue
                self.ctx = f
                for n, what, kind in list(self.sources(f)):
                    if id(n) in self.seen_sites:
                        continue
                    self.seen_sites.add(id(n))
                    self.rep.count("nondeterministic source sites")
                    if self._flow(f, n, what, kind, findings, set()):
                        if f not in self.tainted_funcs:
                            self.tainted_funcs[f] = kind
                            changed = True
                        # newly tainted: callers must be (re)visited, their call sites are new sources
        return findings

    def _flow(self, f, n, what, kind, findings, seen):
        """Follows the value of node n upwards. Returns True when it reaches f's result."""
        pm = module_parents(f.module)
        clock = "clock" in kind
        cur = n
        ret = False
        while True:
            p = pm.get(cur)
            if p is None:
                break
            if isinstance(p, ast.Expr):
                break  # value dropped
            if "random" in kind and isinstance(cur, ast.Name) and (isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not) or isinstance(p, (ast.If, ast.IfExp)) and cur is p.test):
                break  # presence test of a name; generated names are never empty
            if isinstance(p, (ast.JoinedStr, ast.FormattedValue, ast.BinOp, ast.UnaryOp, ast.Starred)):
                cur = p
                continue
            if isinstance(p, (ast.IfExp,)) and cur is not p.test:
                cur = p
                continue
            if isinstance(p, (ast.List, ast.Tuple, ast.ListComp, ast.GeneratorExp)) or isinstance(p, ast.comprehension) and cur is p.iter:
                cur = pm.get(p) if isinstance(p, ast.comprehension) else p
                continue
            if isinstance(p, ast.Attribute) and cur is p.value:
                cur = p
                continue
            if isinstance(p, ast.Subscript):
                if cur is p.slice:  # used as a dictionary key: only identity of keys matters
                    if "identity" in kind or "hash" in kind:
                        break
                cur = p
                continue
            if isinstance(p, ast.Compare):
                if ("identity" in kind or "hash" in kind) and all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in p.ops):
                    break
                if clock and self._deadline(f, p, pm):
                    break
                self._bad(findings, f, p, what, kind, "a comparison")
                break
            if isinstance(p, ast.keyword):
                q = pm.get(p)
                if p.arg == "key" and isinstance(q, ast.Call):
                    self._bad(findings, f, q, what, kind, f"the order chosen by {ast.unparse(q.func)}")
                    break
                cur = p
                continue
            if isinstance(p, ast.Call):
                if cur is p.func:
                    cur = p
                    continue
                r = resolve(f, p.func) if isinstance(p.func, (ast.Name, ast.Attribute)) else None
                if r and r[0] in ("class", "func") and r[1].name in NAME_SINKS and not clock and "random" in kind:
                    break
                if isinstance(p.func, ast.Attribute) and p.func.attr == "log" and "logger" in ast.unparse(p.func.value):
                    break
                if isinstance(p.func, ast.Name) and p.func.id in ("str", "int", "float", "abs", "round", "len", "repr", "list", "tuple", "min", "max", "sum", "chr", "ord", "sorted") or isinstance(p.func, ast.Attribute) and p.func.attr in TEXT_METHODS:
                    cur = p
                    continue
                if r and r[0] == "func" and r[1].name in ("warn",) or (r and r[0] == "ext" and r[1].startswith(("warnings.", "logging."))):
                    break
                if f.name == "__hash__" or "hash" in kind and isinstance(p.func, ast.Name) and p.func.id == "hash":
                    cur = p
                    continue
                # package function: does the parameter only name things?
                self._bad(findings, f, p, what, kind, f"an argument of {ast.unparse(p.func)}")
                break
            if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr, ast.AugAssign)):
                tgts = p.targets if isinstance(p, ast.Assign) else [p.target]
                for t in tgts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            ret |= self._follow_local(f, x.id, what, kind, findings, seen)
                        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            c = enclosing_class(f)
                            if not ("random" in kind and c is not None and c.name == "Any_"):
                                if clock and c is not None and c.name == "Integration":
                                    continue
                                self._bad(findings, f, p, what, kind, f"the attribute {x.attr}")
                        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                            self._bad(findings, f, p, what, kind, "a stored item")
                if isinstance(p, ast.NamedExpr):
                    cur = p
                    continue
                break
            if isinstance(p, ast.Return) or (isinstance(p, ast.Lambda) and cur is p.body):
                if f.name == "__hash__":
                    break
                ret = True
                break
            if isinstance(p, (ast.If, ast.While, ast.IfExp)) and cur is getattr(p, "test", None):
                if clock and self._deadline_if(f, p):
                    break
                self._bad(findings, f, p, what, kind, "a branch condition")
                break
            if isinstance(p, ast.BoolOp):
                cur = p
                continue
            if isinstance(p, (ast.For,)) and cur is p.iter:
                self._bad(findings, f, p, what, kind, "a loop")
                break
            if isinstance(p, (ast.Raise, ast.Assert)):
                break
            break
        return ret

    def _follow_local(self, f, name, what, kind, findings, seen):
        if (f, name) in seen:
            return False
        seen.add((f, name))
        # special case: default key of a wildcard
        c = enclosing_class(f)
        ret = False
        for x in own_nodes(f.node, True):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                ret |= self._flow(f, x, what, kind, findings, seen)
        return ret

    def _integration(self, f):
        return f.module.name.endswith(".integration")

    def _deadline(self, f, cmp, pm):
        """Clock readings may only be compared to decide whether an integration gives up."""
        if not self._integration(f):
            return False
        p = pm.get(cmp)
        while isinstance(p, (ast.BoolOp, ast.UnaryOp)):
            p = pm.get(p)
        if isinstance(p, (ast.If, ast.While)):
            return self._deadline_if(f, p)
        if isinstance(p, (ast.Assign, ast.Return)):
            return True
        return False

    def _deadline_if(self, f, st):
        if not self._integration(f):
            return False
        if isinstance(st, ast.While):
            return True
        if isinstance(st, ast.If):
            body = [s for s in st.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            last = body[-1] if body else None
            ok = isinstance(last, ast.Break) or isinstance(last, ast.Return) and (last.value is None or isinstance(last.value, ast.Constant)) or isinstance(last, ast.Raise)
            return ok or all(isinstance(s, (ast.Assign, ast.Pass)) and (isinstance(s, ast.Pass) or isinstance(s.value, ast.Constant)) for s in body)
        return False

    def _bad(self, findings, f, node, what, kind, how):
        findings.setdefault((f.short, what), (f.loc(node), f"a value depending on {kind} ({what}) reaches {how}"))


def run(rep):
    model = get_model()
    sets = Sets()
    for f in model.funcs:
        if ".debug" in f.module.name:
            continue
        rep.count("functions")
        pm = module_parents(f.module)
        _check_sets(rep, sets, f, list(own_nodes(f.node)), pm)
    for m in model.modules.values():
        if ".debug" in m.name:
            continue
        pm = module_parents(m)
        nodes = []
        stack = list(m.tree.body)
        while stack:
            n = stack.pop()
            if isinstance(n, FUNC):
                continue
            nodes.append(n)
            stack.extend(ast.iter_child_nodes(n))
        _check_sets(rep, sets, m, nodes, pm)
        # nondeterministic values computed at import time
        for n in nodes:
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                r = resolve(m, n.func)
                if r and r[0] == "ext" and nondet_kind(r[1]):
                    rep.find("nondeterministic-source", f"{m.name}:{r[1]}", f"{m.rel}:{n.lineno}", f"{nondet_kind(r[1])[1]} read at import time")
    t = Taint(rep)
    for (where, what), (loc, msg) in sorted(t.run().items()):
        rep.find("nondeterministic-source", f"{where}:{what}", loc, msg)
    rep.sample({"functions returning a nondeterministic value": sorted(f.short for f in t.tainted_funcs)})
    rep.floor("functions", 150)
    rep.floor("nondeterministic source sites", 1)
    return rep.finish(
        "All functions and module bodies: every iteration, conversion, unpacking or text form of a set-typed expression whose order is not lost again at once; and every "
        "read of randomness, clock, hashes/identities, environment, scheduling, followed along its def-use chain through assignments, text operations and returns. Random values may only end in "
        "the name of a fresh symbol/wildcard; clock readings only in the give-up test of an integration or the logger; identities only as dictionary keys or equality tests.",
        "set-order, nondeterministic-source",
        ["Set types are inferred from displays, constructors, operators, annotations and package return values.", "dict and list iteration order is insertion order (guaranteed since Python 3.7)."],
    )
