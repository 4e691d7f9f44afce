"""C18: the library is quiet and leaves process-wide settings alone."""
import ast

from ..astutil import FUNC, callees, lookup, module_parents, own_nodes, resolve, scope
from ..model import Func, get_model

BUILTIN_SINKS = {"print", "input", "breakpoint", "open", "exit", "quit", "help"}
EXT_SINKS = (
    "sys.stdout", "sys.stderr", "sys.__stdout__", "sys.__stderr__", "sys.stdin", "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.exit",
    "sys.setswitchinterval", "sys.set_int_max_str_digits", "sys.displayhook", "sys.excepthook", "sys.path", "sys.modules", "sys.set_coroutine_origin_tracking_depth",
    "os.system", "os.popen", "os.putenv", "os.unsetenv", "os.chdir", "os.umask", "os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs",
    "os.rmdir", "os.removedirs", "os.write", "os.open", "os.fork", "os.kill", "os.execv", "os.abort", "os._exit", "os.nice", "os.listdir", "os.walk", "os.scandir", "os.environ", "os.spawnv", "os.startfile",
    "io.open", "codecs.open", "subprocess", "socket", "shutil", "tempfile", "pathlib", "glob", "shelve", "sqlite3", "urllib", "http",
    "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings", "warnings.showwarning", "warnings.filters", "warnings.formatwarning",
    "random.seed", "random.setstate", "numpy.random.seed", "numpy.random.set_state", "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "numpy.setbufsize",
    "numpy.save", "numpy.savetxt", "numpy.load", "numpy.loadtxt",
    "locale.setlocale", "decimal.setcontext", "decimal.getcontext", "decimal.DefaultContext", "signal", "atexit.register", "gc.disable", "gc.enable", "gc.set_threshold", "gc.freeze",
    "threading", "multiprocessing", "concurrent", "_thread", "pdb", "bdb", "code.interact", "faulthandler", "traceback.print_exc", "traceback.print_stack", "traceback.print_exception", "pprint.pprint", "pprint.pp",
    "logging.basicConfig", "logging.warning", "logging.error", "logging.critical", "logging.exception", "logging.log", "logging.info", "logging.debug", "logging.disable", "logging.getLogger", "logging.captureWarnings",
    "webbrowser", "getpass", "resource.setrlimit", "tracemalloc.start", "time.sleep", "matplotlib.use", "matplotlib.rcParams", "ctypes", "readline", "curses", "dis.dis", "timeit", "cProfile", "profile",
)
# objects whose attributes/items may be read freely but not changed
READ_OK = ("sys.path", "sys.modules", "os.environ", "sys.displayhook", "sys.excepthook", "warnings.filters", "matplotlib.rcParams", "decimal.getcontext")
MUT = {"append", "insert", "extend", "remove", "pop", "clear", "update", "setdefault", "popitem", "reverse", "sort", "__setitem__"}


ALIASES = set()  # (function node, local name) bound once, to a debug flag


def is_debug_name(n):
    if isinstance(n, ast.Name):
        if getattr(n, "_alias", False):
            return True
        return "debug" in n.id.lower() and n.id != "__debug__"
    if isinstance(n, ast.Attribute):
        return "debug" in n.attr.lower()
    return False


def implies(t, pol=True):
    """Does `t` being pol imply that debugging was requested?"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return implies(t.operand, not pol)
    if isinstance(t, ast.BoolOp):
        conj = isinstance(t.op, ast.And) == pol
        rs = [implies(v, pol) for v in t.values]
        return any(rs) if conj else all(rs)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant):
        v, op = t.comparators[0].value, t.ops[0]
        if isinstance(op, (ast.Is, ast.Eq)) and v in (True, False):
            return implies(t.left, pol == bool(v))
        if isinstance(op, (ast.IsNot, ast.NotEq)) and v in (True, False):
            return implies(t.left, pol != bool(v))
        if isinstance(op, (ast.IsNot, ast.NotEq)) and v is None:
            return False
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "bool" and len(t.args) == 1:
        return implies(t.args[0], pol)
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "get" and t.args and isinstance(t.args[0], ast.Constant):
        return pol and "debug" in str(t.args[0].value)
    return pol and is_debug_name(t)


def mark_aliases(model):
    """`d = self._debug` makes d a debug flag inside that function."""
    for f in model.funcs:
        sc = scope(f)
        for name, vals in sc.assigned.items():
            if len(vals) == 1 and vals[0] is not None and implies(vals[0]):
                for n in own_nodes(f.node, include_nested=True):
                    if isinstance(n, ast.Name) and n.id == name:
                        n._alias = True


def debug_only(model):
    """Private helpers all of whose uses are guarded calls (or lie in such helpers)."""
    uses = {}
    for f in list(model.funcs) + list(model.modules.values()):
        pm = module_parents(f.module if isinstance(f, Func) else f)
        nodes = own_nodes(f.node) if isinstance(f, Func) else [n for st in f.tree.body if not isinstance(st, FUNC + (ast.ClassDef,)) for n in ast.walk(st)]
        for n in nodes:
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                nm = n.id if isinstance(n, ast.Name) else n.attr
                uses.setdefault(nm, []).append((f, n, pm))
    cand = {f for f in model.funcs if (f.name.startswith("_") and not f.name.startswith("__") or f.parent is not None) and f.name in uses and not f.name.startswith("<")}
    changed = True
    while changed:
        changed = False
        for f in list(cand):
            for g, n, pm in uses[f.name]:
                if g is f or (isinstance(g, Func) and g in cand) or guarded(n, pm):
                    continue
                cand.discard(f)
                changed = True
                break
    return cand


def guarded(node, pm):
    child, n = node, pm.get(node)
    while n is not None:
        if isinstance(n, ast.If):
            if child in n.body and implies(n.test):
                return True
            if child in n.orelse and implies(n.test, False):
                return True
        if isinstance(n, ast.While) and child in n.body and implies(n.test):
            return True
        if isinstance(n, ast.IfExp) and ((child is n.body and implies(n.test)) or (child is n.orelse and implies(n.test, False))):
            return True
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And) and child in n.values:
            if any(implies(v) for v in n.values[: n.values.index(child)]):
                return True
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(n, fld, None)
            if isinstance(blk, list) and child in blk:
                for st in blk[: blk.index(child)]:
                    if isinstance(st, ast.If) and st.body and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and implies(st.test, False):
                        return True
        if isinstance(n, FUNC):
            return False
        child, n = n, pm.get(n)
    return False


def in_catch_warnings(node, pm, f):
    n = pm.get(node)
    while n is not None and not isinstance(n, FUNC):
        if isinstance(n, ast.With) and any("catch_warnings" in ast.unparse(i.context_expr) for i in n.items):
            return True
        n = pm.get(n)
    return False


def sink_refs(ctx, nodes, pm):
    """(node, what) for references to effectful things."""
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id in BUILTIN_SINKS:
                r = lookup(ctx, n.id)
                if r and r[0] == "builtin":
                    yield n, n.id
        if isinstance(n, (ast.Attribute, ast.Name)):
            par = pm.get(n)
            if isinstance(par, ast.Attribute) and par.value is n and isinstance(par, ast.Attribute):
                # handled at the outermost attribute
                r = resolve(ctx, par)
                if r and r[0] == "ext":
                    continue
            r = resolve(ctx, n)
            if r and r[0] == "ext":
                d = r[1]
                if d.startswith("np."):
                    d = "numpy" + d[2:]
                for s in EXT_SINKS:
                    if d == s or d.startswith(s + "."):
                        if s.startswith("warnings.") and in_catch_warnings(n, pm, ctx):
                            break
                        if s in READ_OK and not _mutating_use(n, pm):
                            break
                        if isinstance(ctx, Func) or True:
                            yield n, d
                        break
                else:
                    # monkeypatching an external module
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        yield n, f"assignment to {d}"


def _mutating_use(n, pm):
    p, c = pm.get(n), n
    while isinstance(p, (ast.Attribute, ast.Subscript, ast.Call)):
        if isinstance(p, ast.Subscript) and p.value is c and isinstance(p.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(p, ast.Attribute) and isinstance(p.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(p, ast.Attribute) and p.attr in MUT:
            return True
        if isinstance(p, ast.Call) and p.func is not c:
            return False
        c, p = p, pm.get(p)
    return isinstance(getattr(c, "ctx", None), (ast.Store, ast.Del)) or (isinstance(p, ast.AugAssign) and p.target is c)


def _is_debug_pkg(m):
    return ".debug" in m.name


def run(rep):
    model = get_model()
    # which debug-package functions have effects (transitively)
    mark_aliases(model)
    private = debug_only(model)
    direct = {}
    for f in model.funcs:
        pm = module_parents(f.module)
        nodes = list(own_nodes(f.node))
        a = f.node.args
        defaults = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        rep.count("functions")
        hits = [(n, w) for n, w in sink_refs(f, nodes, pm)]
        hits += [(d, d.id) for d in defaults if isinstance(d, ast.Name) and d.id in BUILTIN_SINKS]
        rep.count("calls", sum(isinstance(n, ast.Call) for n in nodes))
        direct[f] = hits
    eff = {f for f, h in direct.items() if h and any(not guarded(n, module_parents(f.module)) or n in (f.node.args.defaults) for n, _ in h)}
    changed = True
    calls = {}
    for f in model.funcs:
        calls[f] = [(n, callees(f, n)) for n in own_nodes(f.node) if isinstance(n, ast.Call)]
    while changed:
        changed = False
        for f in model.funcs:
            if f in eff or not _is_debug_pkg(f.module):
                continue
            for n, ts in calls[f]:
                if any(isinstance(t, Func) and t in eff and _is_debug_pkg(t.module) for t in ts) and not guarded(n, module_parents(f.module)):
                    eff.add(f)
                    changed = True
                    break
    for f in model.funcs:
        pm = module_parents(f.module)
        if _is_debug_pkg(f.module):
            rep.count("debug functions")
            continue
        for n, w in direct[f]:
            rep.count("effect sites")
            if guarded(n, pm) or f in private:
                rep.sample(f"{f.loc(n)} {f.short}: {w} only when debugging was requested")
                continue
            rep.find("effect", f"{f.short}: {w}", f.loc(n), f"`{w}` is used although debugging was not requested on this path")
        for n, ts in calls[f]:
            for t in ts:
                if isinstance(t, Func) and t in eff and _is_debug_pkg(t.module):
                    if isinstance(n.func, ast.Attribute) and resolve(f, n.func) is None and len(ts) > 1:
                        continue  # receiver unknown: not decided here
                    rep.count("effect sites")
                    if guarded(n, pm) or f in private:
                        rep.sample(f"{f.loc(n)} {f.short}: call of {t.short} only when debugging was requested")
                        continue
                    rep.find("effect-via-debug", f"{f.short}: {t.short}", f.loc(n), f"{t.short} has effects on the outside and is called although debugging was not requested")
        # references to effectful debug functions passed as values
        # debugging must stay off by default
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for arg, d in pairs:
            if "debug" in arg.arg.lower():
                rep.count("debug flags")
                if not (isinstance(d, ast.Constant) and not d.value):
                    rep.find("debug-default", f"{f.short}: {arg.arg}", f.loc(), f"parameter `{arg.arg}` defaults to `{ast.unparse(d)}`: debugging is on without being requested")
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if is_debug_name(t) and n.value is not None and not guarded(n, pm):
                        rep.count("debug flags")
                        if isinstance(n.value, ast.Constant) and n.value.value not in (False, None, 0):
                            rep.find("debug-forced", f"{f.short}: {ast.unparse(t)}", f.loc(n), "debugging is switched on without being requested")
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg and "debug" in k.arg.lower() and isinstance(k.value, ast.Constant) and k.value.value not in (False, None, 0) and not guarded(n, pm):
                        rep.find("debug-forced", f"{f.short}: {k.arg}=", f.loc(n), "debugging is switched on without being requested")
    # import time
    for m in model.modules.values():
        pm = module_parents(m)
        top = []

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, FUNC):
                    for d in list(c.args.defaults) + [x for x in c.args.kw_defaults if x is not None] + list(getattr(c, "decorator_list", [])):
                        top.append(("default", d))
                        for e in ast.walk(d):
                            top.append(("default", e))
                    continue
                top.append(("top", c))
                walk(c)

        walk(m.tree)
        rep.count("modules")
        for kind, n in top:
            if kind == "default":
                continue
            for n2, w in sink_refs(m, [n], pm):
                if isinstance(pm.get(n2), ast.Assign) and isinstance(n2, ast.Name) and _is_debug_pkg(m):
                    continue
                rep.find("effect-at-import", f"{m.name}: {w}", f"{m.rel}:{n2.lineno}", f"`{w}` is used while the package is being imported")
            if isinstance(n, ast.Call):
                for t in callees(m, n) if not isinstance(n.func, ast.Attribute) else []:
                    if isinstance(t, Func) and (t in eff or direct.get(t)):
                        rep.find("effect-at-import", f"{m.name}: {t.short}", f"{m.rel}:{n.lineno}", f"{t.short}, which has outside effects, is called while the package is being imported")
    rep.floor("functions", 200)
    rep.floor("calls", 800)
    return rep.finish(
        "Every reference to a printing, file, process, debugger or process-settings primitive, in every function and in module bodies, was resolved and its dominating conditions examined; calls into the debug package are followed to the effects they reach.",
        "an effect primitive (or an effectful debug function) is referenced on a path not dominated by a requested-debugging condition, at import time, or debugging is on by default",
        ["warnings.warn is the documented way to report a failed integration and is not an effect here."],
    )
