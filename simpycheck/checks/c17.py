"""C17: behaviour must not depend on assertions being enabled."""
import ast

from ..astutil import callees, enclosing_class, lookup, module_parents, own_nodes, resolve, scope
from ..model import Func, get_model

MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "appendleft", "popleft", "write", "__setitem__", "__delitem__"}


def _handler_types(f, h):
    if h.type is None:
        return ["*"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(t).split(".")[-1] for t in ts]


def _guarded(call, pm):
    """`X.expand()` under a test that calls X.expandable() on the same receiver is a call whose precondition holds."""
    recv = ast.dump(call.func.value)
    n, child = pm.get(call), call
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda)):
        test = None
        if isinstance(n, (ast.IfExp, ast.If)) and child is not n.test:  # which branch is which depends on how the test is written
            test = n.test
        if test is not None:
            for c in ast.walk(test):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.dump(c.func.value) == recv:
                    return True
        # early return:  if not X.expandable(): return ...
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While)):
            pass
        child, n = n, pm.get(n)
    # dominated by an early exit at function level
    if isinstance(n, ast.FunctionDef):
        for st in n.body:
            if st is child:
                break
            if isinstance(st, ast.If) and st.body and isinstance(st.body[-1], (ast.Return, ast.Raise)):
                for c in ast.walk(st.test):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.dump(c.func.value) == recv:
                        return True
            if isinstance(st, ast.Assert):
                for c in ast.walk(st.test):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.dump(c.func.value) == recv:
                        return True
    return False


def _wraps_inherited(f):
    return enclosing_class(f) is not None


def _closure(f, nodes, pm):
    """Functions whose assertions a try body depends on: calls by name, on self, and unguarded method calls."""
    todo, seen, order = [(f, n) for n in nodes], set(), []
    while todo:
        g, n = todo.pop()
        for c in ast.walk(n):
            if not isinstance(c, ast.Call):
                continue
            gpm = module_parents(g.module)
            if isinstance(c.func, ast.Attribute):
                if _guarded(c, gpm):
                    continue
            for t in callees(g, c):
                if isinstance(t, Func) and t not in seen and t.name not in ("__new__", "__init__", "__post_init__"):
                    seen.add(t)
                    order.append(t)
                    if isinstance(t.node, ast.Lambda):
                        todo.append((t, t.node.body))
                    else:
                        todo.extend((t, s) for s in t.node.body)
    return order


def _lib_invariant(f, a):
    """`assert <recv>.expandable()`-style preconditions inside a method: only relevant when the method itself was reached unguarded."""
    return False


def _mutating_funcs(model):
    """Functions that (transitively) mutate state that is not a private memo field."""
    direct = set()
    for f in model.funcs:
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Attribute) and "cache" not in t.attr and f.name not in ("__init__", "__new__", "__post_init__"):
                        direct.add(f)
                    if isinstance(t, ast.Subscript):
                        b = t.value
                        while isinstance(b, (ast.Attribute, ast.Subscript)):
                            b = b.value
                        if isinstance(t.value, ast.Attribute) and "cache" in t.value.attr:
                            continue
                        if isinstance(b, ast.Name) and (b.id in scope(f).params or (lookup(f, b.id) or ("?",))[0] in ("assign",)):
                            direct.add(f)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name) and (b.id in scope(f).params or (lookup(f, b.id) or ("?",))[0] in ("assign", "local") and not scope(f).is_local(b.id)):
                    direct.add(f)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                direct.add(f)
    return direct


def run(rep):
    model = get_model()
    mut = _mutating_funcs(model)
    for f in model.funcs:
        pm = module_parents(f.module)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Try):
                rep.count("handlers", len(n.handlers))
                hit = [h for h in n.handlers if set(_handler_types(f, h)) & {"*", "AssertionError", "Exception", "BaseException"}]
                if not hit:
                    continue
                # an assert directly in the body, or in a function the body relies on
                sites = []
                for st in n.body:
                    for a in ast.walk(st):
                        if isinstance(a, ast.Assert):
                            sites.append((f, a))
                clo = _closure(f, n.body, pm)
                rep.count("functions reached from guarded bodies", len(clo))
                for g in clo:
                    for a in own_nodes(g.node):
                        if isinstance(a, ast.Assert):
                            sites.append((g, a))
                for g, a in sites:
                    rep.find("assert-as-control-flow", f"{f.short} -> {g.short}: assert {ast.unparse(a.test)[:60]}", g.loc(a),
                             f"the outcome of `{ast.unparse(a.test)}` decides the handler in {f.short} ({f.loc(n)}); with assertions disabled the failing case is accepted")
                rep.sample(f"{f.loc(n)} {f.short}: handler {[_handler_types(f, h) for h in hit]} over {len(clo)} functions")
            if isinstance(n, ast.Assert):
                rep.count("assertions")
                for c in ast.walk(n.test):
                    if isinstance(c, ast.NamedExpr):
                        rep.find("assert-side-effect", f"{f.short}: {c.target.id}", f.loc(n), f"the assertion binds `{c.target.id}`, which is unset when assertions are disabled")
                    if isinstance(c, ast.Call):
                        if isinstance(c.func, ast.Attribute) and c.func.attr in MUTATORS and not callees(f, c, cha=False):
                            rep.find("assert-side-effect", f"{f.short}: {ast.unparse(c)[:60]}", f.loc(n), f"the assertion performs `{ast.unparse(c)}`, which is skipped when assertions are disabled")
                        if isinstance(c.func, ast.Name) and c.func.id in ("next", "setattr", "delattr") and (lookup(f, c.func.id) or ("",))[0] == "builtin":
                            rep.find("assert-side-effect", f"{f.short}: {ast.unparse(c)[:60]}", f.loc(n), f"the assertion performs `{ast.unparse(c)}`, which is skipped when assertions are disabled")
                        for t in callees(f, c):
                            if isinstance(t, Func) and _trans_mut(t, mut):
                                rep.find("assert-side-effect", f"{f.short}: {ast.unparse(c)[:60]}", f.loc(n), f"the assertion calls {t.short}, which changes state; the change is skipped when assertions are disabled")
            if isinstance(n, ast.Name) and n.id == "__debug__":
                rep.find("debug-constant", f"{f.short}: __debug__", f.loc(n), "a decision depends on whether assertions are enabled")
            if isinstance(n, ast.Attribute) and n.attr == "optimize" and (ast.unparse(n.value)).endswith("flags"):
                rep.find("debug-constant", f"{f.short}: {ast.unparse(n)}", f.loc(n), "a decision depends on the optimisation flag of the interpreter")
    for m in model.modules.values():
        for st in m.tree.body:
            for n in [st] if isinstance(st, ast.Assert) else ([x for x in ast.walk(st) if isinstance(x, ast.Name) and x.id == "__debug__"] if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else []):
                if isinstance(n, ast.Name):
                    rep.find("debug-constant", f"{m.name}: __debug__", f"{m.rel}:{n.lineno}", "a module-level decision depends on whether assertions are enabled")
    rep.count("functions", len(model.funcs))
    rep.floor("functions", 200)
    rep.floor("assertions", 5)
    return rep.finish(
        "Every exception handler that can catch a failed assertion was examined together with the functions its body relies on (calls by name, on self, and method calls whose precondition is not tested on the same receiver); every assertion's condition was examined for effects.",
        "violation: a handler of AssertionError (or a catch-all) whose body reaches an `assert` statement; an `assert` whose condition binds a name, mutates, or calls a function that mutates non-memo state; any use of __debug__ / sys.flags.optimize",
        ["Validation assertions that merely reject unsupported input are outside the property."],
    )


_tm = {}


def _trans_mut(f, direct, depth=0, seen=None):
    if f in _tm:
        return _tm[f]
    seen = seen or set()
    if f in seen or depth > 6:
        return False
    seen.add(f)
    r = f in direct
    if not r:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for t in callees(f, n, cha=False):
                    if isinstance(t, Func) and t.name not in ("__new__", "__init__", "__post_init__") and _trans_mut(t, direct, depth + 1, seen):
                        r = True
                        break
            if r:
                break
    _tm[f] = r
    return r
