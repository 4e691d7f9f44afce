"""C16: failures are raised, never returned or swallowed."""
import ast
import builtins

from ..astutil import body_of, callees, lookup, module_parents, own_nodes, resolve, scope
from ..model import Class, Func, get_model
from ..vflow import engine
from . import refusals

BINARY_DUNDERS = {f"__{p}{o}__" for p in ("", "r", "i") for o in ("add", "sub", "mul", "truediv", "div", "floordiv", "mod", "pow", "matmul", "divmod", "and", "or", "xor", "lshift", "rshift")}
BINARY_DUNDERS |= {"__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__length_hint__", "__subclasshook__", "__array_ufunc__", "__array_function__", "__format__"}

# Exceptions that mark a programming defect or that swallow everything; a handler that does not re-raise hides a failure.
BROAD = {"*", "Exception", "BaseException", "TypeError", "AttributeError", "NameError", "UnboundLocalError", "RuntimeError", "RecursionError",
         "LookupError", "KeyError", "IndexError", "ArithmeticError", "ZeroDivisionError", "OverflowError", "FloatingPointError", "StopIteration", "SystemError", "MemoryError"}
# Protocol exceptions of this code base: (exception, callee that signals a documented negative outcome by it)
PROTOCOL = {"AssertionError": {"to_const_polynomial", "_to_const_polynomial", "is_polynomial"}, "ValueError": {"backward"}}


def exc_class(f, e):
    """Name of the exception class an expression denotes, or None."""
    model = get_model()
    r = resolve(f, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if r is None:
        return None
    if r[0] == "builtin" and isinstance(getattr(builtins, r[1], None), type) and issubclass(getattr(builtins, r[1]), BaseException):
        return r[1]
    if r[0] == "class":
        for b in r[1].mro():
            if isinstance(b, str) and b.startswith("ext:"):
                t = getattr(builtins, b[4:].split(".")[-1], None)
                if isinstance(t, type) and issubclass(t, BaseException):
                    return r[1].name
    return None


def exc_value(f, e):
    """Is e an exception object or class?"""
    if isinstance(e, ast.Call):
        n = exc_class(f, e.func)
        return n
    n = exc_class(f, e)
    if n:
        return n
    if isinstance(e, ast.IfExp):
        return exc_value(f, e.body) or exc_value(f, e.orelse)
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            if exc_value(f, v):
                return exc_value(f, v)
    if isinstance(e, ast.Name) and isinstance(f, Func):
        r = lookup(f, e.id)
        if r and r[0] == "local" and r[1] is f:
            vals = scope(f).assigned.get(e.id, [])
            hits = [v for v in vals if v is not None and not isinstance(v, ast.Name) and exc_value(f, v)]
            if hits and len(hits) == len(vals):
                return exc_value(f, hits[0])
            # `except X as name: return name`
            pm = module_parents(f.module)
            n = pm.get(e)
            while n is not None and n is not f.node:
                if isinstance(n, ast.ExceptHandler) and n.name == e.id:
                    return "caught " + (ast.unparse(n.type) if n.type else "exception")
                n = pm.get(n)
    return None


def terminates(stmts):
    """Every path through these statements leaves the function or the loop (return/raise/continue/break)."""
    for st in stmts:
        if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(st, ast.If) and st.orelse and terminates(st.body) and terminates(st.orelse):
            return True
        if isinstance(st, ast.With) and terminates(st.body):
            return True
    return False


def always_raises(stmts):
    for st in stmts:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, (ast.Return, ast.Continue, ast.Break)):
            return False
        if isinstance(st, ast.If):
            if st.orelse and always_raises(st.body) and always_raises(st.orelse):
                return True
            if any(isinstance(n, (ast.Return, ast.Continue, ast.Break)) for x in st.body + st.orelse for n in ast.walk(x)):
                return False
        if isinstance(st, (ast.With, ast.Try)) and always_raises(st.body):
            return True
    return False


def falls_through(stmts):
    """Can control reach the end of the statement list? (exact for the statement kinds used; while True without break does not)"""
    for st in stmts:
        if isinstance(st, (ast.Return, ast.Raise)):
            return False
        if isinstance(st, ast.If):
            if isinstance(st.test, ast.Constant) and st.test.value:
                if not falls_through(st.body):
                    return False
                continue
            if st.orelse and not falls_through(st.body) and not falls_through(st.orelse):
                return False
        elif isinstance(st, ast.While):
            const = isinstance(st.test, ast.Constant) and bool(st.test.value)
            if const and not _has_break(st.body):
                return False
        elif isinstance(st, ast.With):
            if not falls_through(st.body):
                return False
        elif isinstance(st, ast.Try):
            if st.finalbody and not falls_through(st.finalbody):
                return False
            main = falls_through(st.body + st.orelse)
            if not main and not any(falls_through(h.body) for h in st.handlers):
                return False
        elif isinstance(st, (ast.Continue, ast.Break)):
            return False
        elif hasattr(ast, "Match") and isinstance(st, ast.Match):
            wild = any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in st.cases)
            if wild and not any(falls_through(c.body) for c in st.cases):
                return False
    return True


def _has_break(stmts):
    for st in stmts:
        if isinstance(st, ast.Break):
            return True
        if isinstance(st, (ast.For, ast.While)):
            if _has_break(st.orelse):
                return True
            continue
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            continue
        for fld in ("body", "orelse", "finalbody"):
            if _has_break(getattr(st, fld, []) or []):
                return True
        for h in getattr(st, "handlers", []):
            if _has_break(h.body):
                return True
    return False


def allows_none(ann):
    if ann is None:
        return None
    s = ast.unparse(ann).replace('"', "").replace("'", "")
    return any(k in s for k in ("Optional", "None", "Any", "NoReturn", "object"))


def _sentinels(model):
    """String constants that some comparison in the package tests for."""
    out = set()
    for m in model.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Compare):
                for e in [n.left] + n.comparators:
                    for c in ast.walk(e):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str):
                            out.add(c.value)
    return out


def run(rep):
    model = get_model()
    sentinels = _sentinels(model)
    debug = lambda f: ".debug" in f.module.name
    for f in model.funcs:
        if debug(f):
            continue
        rep.count("functions")
        pm = module_parents(f.module)
        node = f.node
        returns = []
        if isinstance(node, ast.Lambda):
            returns = [(node.body, node)]
        for n in own_nodes(node):
            if isinstance(n, ast.Return) and n.value is not None:
                returns.append((n.value, n))
            elif isinstance(n, (ast.Yield,)) and n.value is not None:
                returns.append((n.value, n))
        # --- R1 exception objects as results
        for v, site in returns:
            rep.count("return sites")
            vals = v.elts if isinstance(v, (ast.Tuple, ast.List)) else [v]
            for x in vals:
                nm = exc_value(f, x)
                if nm:
                    rep.find("returned-exception", f.short, f.loc(site), f"{f.short} returns {nm} instead of raising it")
            if isinstance(v, ast.Name) and v.id == "NotImplemented" and f.name not in BINARY_DUNDERS:
                par = f.parent
                if not (par is not None and par.name in BINARY_DUNDERS):
                    rep.find("returned-NotImplemented", f.short, f.loc(site), "NotImplemented returned outside a binary operator method, where nothing interprets it")
        # --- R3 error messages as results
        strs = [(v, s) for v, s in returns if isinstance(v, ast.JoinedStr) or isinstance(v, ast.Constant) and isinstance(v.value, str)]
        others = [(v, s) for v, s in returns if (v, s) not in strs and not (isinstance(v, ast.Constant) and v.value is None)]
        ann = getattr(node, "returns", None)
        ann_s = ast.unparse(ann) if ann is not None else ""
        stringy = "str" in ann_s.lower() or "Literal" in ann_s
        if strs and others and not stringy:
            nonstr = [v for v, s in others if isinstance(v, (ast.Call, ast.BinOp, ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.Compare, ast.BoolOp)) and not _maybe_str(v)]
            for v, s in strs:
                text = v.value if isinstance(v, ast.Constant) else ast.unparse(v)
                if isinstance(v, ast.Constant) and v.value in sentinels:
                    continue
                if (ann is not None or nonstr) and " " in text:
                    rep.find("returned-message", f.short, f.loc(s), f"returns the message {text!r} where other paths return a result")
        # --- R6 value-returning function that can run off its end
        if not isinstance(node, ast.Lambda) and others and not any(d in ("abstractmethod",) for d in f.dec_names()):
            explicit_none = any(isinstance(n, ast.Return) and (n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None) for n in own_nodes(node))
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
            if not gen and allows_none(ann) is False and not explicit_none:
                rep.count("functions with a non-optional result")
                if falls_through(node.body):
                    rep.find("missing-result", f.short, f.loc(), f"declared to return {ann_s}, but a path runs off the end and yields None")
        for n in own_nodes(node):
            # --- R2 built but never raised
            if isinstance(n, ast.Expr):
                nm = exc_value(f, n.value)
                if nm:
                    rep.find("dropped-exception", f"{f.short}:{nm}", f.loc(n), f"{nm} is created and dropped")
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and exc_value(f, n.value):
                t = n.targets[0].id
                if not any(isinstance(x, ast.Name) and x.id == t and isinstance(x.ctx, ast.Load) for x in own_nodes(node, True)):
                    rep.find("dropped-exception", f"{f.short}:{exc_value(f, n.value)}", f.loc(n), "exception object stored and never raised")
            elif isinstance(n, ast.Raise):
                rep.count("raise statements")
                if n.exc is not None:
                    x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    r = resolve(f, x) if isinstance(x, (ast.Name, ast.Attribute)) else None
                    bad = isinstance(n.exc, ast.Constant) or isinstance(n.exc, ast.JoinedStr)
                    if r and r[0] == "builtin" and exc_class(f, x) is None and not x.__class__ is ast.Attribute:
                        bad = True
                    if bad:
                        rep.find("raise-non-exception", f.short, f.loc(n), f"raises {ast.unparse(n.exc)}, which is not an exception")
            elif isinstance(n, ast.Try):
                _check_try(rep, f, n)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call):
                        r = resolve(f, c.func)
                        if r and r[0] == "ext" and r[1].endswith("contextlib.suppress"):
                            names = [ast.unparse(a).split(".")[-1] for a in c.args]
                            _check_swallow(rep, f, n, names, n.body, "contextlib.suppress")
    # module bodies
    for m in model.modules.values():
        if ".debug" in m.name:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try):
                rep.count("try statements")
    rep.floor("functions", 150)
    rep.floor("raise statements", 10)
    return engine.check(
        rep, refusals.entries, 12,
        "Every function, lambda, return, raise, try and with-suppress site of the library modules was classified: a result may not be an exception object/class, "
        "NotImplemented (outside binary operator methods) or an error message; a built exception must be raised; a function declared to return a value must not run off its end; "
        "a handler may only absorb the code base's two documented protocol exceptions around the calls that signal them. "
        "The operations that have no answer for an input (more items chosen than there are, an unnamed variable among several, bounds of an unknown form, placeholders where none may be, texts as numbers) "
        "are interpreted abstractly on such inputs: every path must end in an exception.",
        "returned-exception, returned-NotImplemented, returned-message, missing-result, dropped-exception, raise-non-exception, swallowing-handler, return-in-finally, accepted",
        ["Names are resolved lexically; a class is an exception if its bases reach a builtin exception.", "simpy.debug (developer tools) is outside the property."])


def _maybe_str(v):
    if isinstance(v, ast.Call):
        fn = v.func
        if isinstance(fn, ast.Name) and fn.id in ("str", "repr", "format"):
            return True
        if isinstance(fn, ast.Attribute) and (fn.attr in ("join", "format", "latex", "__repr__", "strip", "replace", "lower", "upper")):
            return True
        return True if isinstance(fn, ast.Name) and fn.id.startswith("_") else False
    if isinstance(v, ast.BinOp):
        return any(isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(v))
    return False


def _check_try(rep, f, t):
    rep.count("try statements")
    for h in t.handlers:
        rep.count("handlers")
        if always_raises(h.body):
            continue
        ts = ["*"] if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        _check_swallow(rep, f, h, ts, t.body, "except " + ", ".join(ts))
    for st in t.finalbody:
        for n in ast.walk(st):
            if isinstance(n, (ast.Return, ast.Break, ast.Continue)) and not _inside_loop(st, n):
                rep.find("return-in-finally", f.short, f.loc(n), "leaving a finally block discards the exception in flight")


def _inside_loop(root, n):
    if isinstance(n, ast.Return):
        return False
    for x in ast.walk(root):
        if isinstance(x, (ast.For, ast.While)) and any(y is n for y in ast.walk(x)):
            return True
    return False


def _package_calls(f, stmts):
    """Calls in these statements that may run package code, with the possible callees."""
    out = []
    for st in stmts:
        for c in ast.walk(st):
            if isinstance(c, ast.Call):
                cs = callees(f, c)
                if cs:
                    out.append((c, cs))
    ops = [n for st in stmts for n in ast.walk(st) if isinstance(n, ast.BinOp)]
    return out, ops


def _check_swallow(rep, f, site, names, body, what):
    calls, ops = _package_calls(f, body)
    for nm in names:
        if nm in BROAD:
            cat_all = nm in ("*", "Exception", "BaseException")
            if calls or (cat_all and (ops or any(isinstance(n, ast.Call) for st in body for n in ast.walk(st)))):
                rep.find("swallowing-handler", f"{f.short}:{nm}", f.loc(site), f"{what} absorbs every {'failure' if cat_all else nm} of the calls in the try block")
        elif nm in ("ValueError", "NotImplementedError", "AssertionError"):
            if not calls:
                continue
            ok = PROTOCOL.get(nm, set())
            if not any(c.name in ok or _reaches(c, ok) for _, cs in calls for c in cs):
                rep.find("swallowing-handler", f"{f.short}:{nm}", f.loc(site), f"{what} absorbs a failure reported by the calls in the try block; none of them uses {nm} as a negative answer")


def _reaches(c, names, depth=2):
    """A thin wrapper around a protocol function counts as that function."""
    if not isinstance(c, Func) or depth == 0:
        return False
    for n in own_nodes(c.node):
        if isinstance(n, ast.Call):
            for k in callees(c, n, cha=False):
                if isinstance(k, Func) and (k.name in names or _reaches(k, names, depth - 1)):
                    return True
    return False
