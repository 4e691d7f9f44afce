"""C19: runs on every supported interpreter (3.8+) with only the declared dependency."""
import ast
import io
import os
import re
import sys
import tokenize

from ..astutil import FUNC, lookup, module_parents, own_nodes, resolve
from ..model import Class, Func, get_model
from .c20 import Sets

# dotted name -> first version providing it
ADDED = {
    "math.lcm": (3, 9), "math.nextafter": (3, 9), "math.ulp": (3, 9), "math.cbrt": (3, 11), "math.exp2": (3, 11), "math.sumprod": (3, 12), "math.fma": (3, 13),
    "functools.cache": (3, 9), "itertools.pairwise": (3, 10), "itertools.batched": (3, 12), "operator.call": (3, 11), "operator.is_none": (3, 14), "operator.is_not_none": (3, 14),
    "random.randbytes": (3, 9), "random.binomialvariate": (3, 12), "inspect.get_annotations": (3, 10), "inspect.getmembers_static": (3, 11), "copy.replace": (3, 13),
    "typing.Self": (3, 11), "typing.TypeAlias": (3, 10), "typing.ParamSpec": (3, 10), "typing.Concatenate": (3, 10), "typing.TypeGuard": (3, 10), "typing.TypeIs": (3, 13), "typing.Never": (3, 11), "typing.LiteralString": (3, 11),
    "typing.Annotated": (3, 9), "typing.override": (3, 12), "typing.assert_never": (3, 11), "typing.assert_type": (3, 11), "typing.reveal_type": (3, 11), "typing.Required": (3, 11), "typing.NotRequired": (3, 11), "typing.Unpack": (3, 11), "typing.TypeVarTuple": (3, 11), "typing.dataclass_transform": (3, 11), "typing.is_typeddict": (3, 10), "typing.get_overloads": (3, 11), "typing.ReadOnly": (3, 13), "typing.TypeAliasType": (3, 12),
    "types.NoneType": (3, 10), "types.EllipsisType": (3, 10), "types.UnionType": (3, 10), "types.GenericAlias": (3, 9), "dataclasses.KW_ONLY": (3, 10),
    "enum.StrEnum": (3, 11), "contextlib.aclosing": (3, 10), "contextlib.chdir": (3, 11), "graphlib": (3, 9), "zoneinfo": (3, 9), "tomllib": (3, 11), "ast.unparse": (3, 9), "ast.indent": (3, 9),
    "statistics.correlation": (3, 10), "statistics.covariance": (3, 10), "bisect.insort": (3, 0), "string.templatelib": (3, 14), "annotationlib": (3, 14), "compression": (3, 14),
    "builtins.aiter": (3, 10), "builtins.anext": (3, 10), "ExceptionGroup": (3, 11), "BaseExceptionGroup": (3, 11), "EncodingWarning": (3, 10), "PythonFinalizationError": (3, 13),
    "warnings.deprecated": (3, 13), "sys.exception": (3, 11), "sys.orig_argv": (3, 10), "sys.stdlib_module_names": (3, 10), "time.time_ns": (3, 7), "math.integer": (3, 15),
    "fractions.Fraction.is_integer": (3, 12), "fractions.Fraction.from_number": (3, 14), "collections.abc.Buffer": (3, 12), "traceback.print_last": (3, 0), "logging.getLevelNamesMapping": (3, 11), "logging.getHandlerByName": (3, 12),
}
# dotted name -> first version without it
REMOVED = {
    "fractions.gcd": (3, 9), "inspect.getargspec": (3, 11), "inspect.formatargspec": (3, 11), "collections.Iterable": (3, 10), "collections.Mapping": (3, 10), "collections.MutableMapping": (3, 10), "collections.Sequence": (3, 10), "collections.Callable": (3, 10), "collections.Hashable": (3, 10), "collections.Set": (3, 10), "collections.MutableSequence": (3, 10), "collections.Iterator": (3, 10), "collections.Sized": (3, 10), "collections.Container": (3, 10), "collections.Generator": (3, 10),
    "time.clock": (3, 8), "imp": (3, 12), "distutils": (3, 12), "asynchat": (3, 12), "asyncore": (3, 12), "smtpd": (3, 12), "parser": (3, 10), "symbol": (3, 10), "formatter": (3, 10), "binhex": (3, 11), "asyncio.coroutine": (3, 11), "cgi": (3, 13), "pipes": (3, 13), "crypt": (3, 13), "imghdr": (3, 13), "telnetlib": (3, 13), "lib2to3": (3, 13), "macpath": (3, 8), "dummy_threading": (3, 9), "_dummy_thread": (3, 9),
    "typing.io": (3, 13), "typing.re": (3, 13), "ast.Num": (3, 14), "ast.Str": (3, 14), "ast.NameConstant": (3, 14), "ast.Bytes": (3, 14), "sys.maxint": (3, 0), "string.letters": (3, 0), "itertools.izip": (3, 0), "typing.ByteString": (3, 14), "locale.resetlocale": (3, 13), "unittest.makeSuite": (3, 13), "math.inf_": (3, 0),
    "pkgutil.ImpImporter": (3, 12), "gettext.lgettext": (3, 11), "random.jumpahead": (3, 0), "sys.setcheckinterval": (3, 9), "sys.getcheckinterval": (3, 9), "threading._sleep": (3, 0), "array.array.tostring": (3, 9), "xml.etree.cElementTree": (3, 9), "base64.encodestring": (3, 9), "base64.decodestring": (3, 9), "os.errno": (3, 7), "webbrowser.MacOSX": (3, 13), "configparser.SafeConfigParser": (3, 12),
}
NUMPY_GONE = {"float", "int", "bool", "object", "str", "complex", "long", "unicode", "float_", "complex_", "NaN", "Inf", "Infinity", "NINF", "PINF", "product", "cumproduct", "sometrue", "alltrue", "asfarray", "find_common_type", "round_", "mat", "cast", "source", "unicode_", "string_", "issubclass_", "issctype", "maximum_sctype", "obj2sctype", "sctype2char", "sctypes", "set_string_function", "compat", "deprecate", "disp", "byte_bounds", "recfromcsv", "recfromtxt", "safe_eval", "who", "lookfor", "nbytes", "infty", "row_stack", "trapz", "in1d", "asscalar", "alen", "rank", "msort"}
NUMPY_NEW = {"concat", "permute_dims", "matrix_transpose", "vecdot", "pow", "acos", "acosh", "asin", "asinh", "atan", "atanh", "atan2", "bitwise_count", "unique_all", "unique_counts", "unique_inverse", "unique_values", "isdtype", "astype", "cumulative_sum", "cumulative_prod", "trapezoid", "unstack", "matvec", "vecmat", "bool", "long", "ulong", "bitwise_left_shift", "bitwise_right_shift", "bitwise_invert", "from_dlpack", "broadcast_shapes"}
METHODS = {"removeprefix": (3, 9), "removesuffix": (3, 9), "bit_count": (3, 10), "is_relative_to": (3, 9), "readlink": (3, 9), "hardlink_to": (3, 10), "add_note": (3, 11), "from_number": (3, 14)}
GONE_METHODS = {"tostring": (3, 9), "isAlive": (3, 9), "getchildren": (3, 9), "has_key": (3, 0), "iteritems": (3, 0), "itervalues": (3, 0), "iterkeys": (3, 0)}
KW = {("zip", "strict"): (3, 10), ("dataclass", "slots"): (3, 10), ("dataclass", "kw_only"): (3, 10), ("dataclass", "match_args"): (3, 10), ("dataclass", "weakref_slot"): (3, 11), ("field", "kw_only"): (3, 10), ("map", "strict"): (3, 14), ("bisect_left", "key"): (3, 10), ("bisect_right", "key"): (3, 10), ("bisect", "key"): (3, 10), ("insort", "key"): (3, 10), ("Fraction", "_normalize"): None, ("namedtuple", "verbose"): None, ("shuffle", "random"): None, ("batched", "strict"): (3, 13), ("sum", "start"): (3, 8), ("TypeVar", "default"): (3, 13), ("warn", "skip_file_prefixes"): (3, 12)}
GENERIC = {"list", "dict", "tuple", "set", "frozenset", "type"}
GENERIC_EXT = ("collections.abc.", "collections.deque", "collections.defaultdict", "collections.OrderedDict", "collections.Counter", "collections.ChainMap", "re.Pattern", "re.Match", "contextlib.")
LOW = (3, 8)
ALLOWED_THIRD = {"numpy"}


def eager_modules(model):
    """Package modules executed by `import simpy` (transitively, imports at module level)."""
    seen, todo = set(), [model.pkg]
    while todo:
        n = todo.pop()
        if n in seen or n not in model.modules:
            continue
        seen.add(n)
        parts = n.split(".")
        for i in range(1, len(parts)):
            todo.append(".".join(parts[:i]))
        m = model.modules[n]
        for st in _toplevel(m.tree):
            if isinstance(st, ast.Import):
                todo += [a.name for a in st.names]
            elif isinstance(st, ast.ImportFrom):
                src = model.rel_module(m, st.level, st.module)
                todo.append(src)
                todo += [f"{src}.{a.name}" for a in st.names]
    return seen


def _toplevel(tree):
    """Nodes executed at import time."""
    stack = list(tree.body)
    while stack:
        n = stack.pop(0)
        yield n
        if isinstance(n, FUNC):
            stack = list(n.args.defaults) + [d for d in n.args.kw_defaults if d] + list(getattr(n, "decorator_list", [])) + stack
            continue
        stack = list(ast.iter_child_nodes(n)) + stack


def optional(node, pm):
    """Inside try/except ImportError, or under TYPE_CHECKING / a version test."""
    c, n = node, pm.get(node)
    while n is not None:
        if isinstance(n, ast.Try) and c in n.body:
            for h in n.handlers:
                t = "" if h.type is None else ast.unparse(h.type)
                if h.type is None or any(k in t for k in ("ImportError", "ModuleNotFoundError", "AttributeError", "Exception", "TypeError", "NameError")):
                    return True
        if isinstance(n, ast.ExceptHandler):
            return True
        if isinstance(n, (ast.If, ast.IfExp)):
            t = ast.unparse(n.test)
            if "version_info" in t or "TYPE_CHECKING" in t or "hasattr" in t or "hexversion" in t:
                return True
        c, n = n, pm.get(n)
    return False


def _annotation_positions(m):
    """Annotation expressions that are evaluated when the module / function definition runs."""
    future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
    lazy = set()
    for n in ast.walk(m.tree):
        if isinstance(n, FUNC) and not isinstance(n, ast.Lambda):
            for st in own_nodes(n):
                if isinstance(st, ast.AnnAssign):
                    lazy.update(ast.walk(st.annotation))  # local variable annotations are not evaluated
        if future:
            if isinstance(n, ast.AnnAssign):
                lazy.update(ast.walk(n.annotation))
            if isinstance(n, ast.arg) and n.annotation is not None:
                lazy.update(ast.walk(n.annotation))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns is not None:
                lazy.update(ast.walk(n.returns))
    return lazy


def _is_type_like(ctx, e):
    if isinstance(e, ast.Constant) and e.value is None:
        return True
    if isinstance(e, ast.Subscript):
        return _is_type_like(ctx, e.value)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        return _is_type_like(ctx, e.left) or _is_type_like(ctx, e.right)
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return False
    r = resolve(ctx, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if r is None:
        return False
    if r[0] == "class":
        return True
    if r[0] == "builtin":
        import builtins

        return isinstance(getattr(builtins, r[1], None), type)
    if r[0] == "ext":
        return r[1].startswith("typing.") or r[1] in ("fractions.Fraction", "numpy.ndarray")
    return False


def run(rep):
    model = get_model()
    eager = eager_modules(model)
    rep.count("modules executed by import", len(eager))
    std = set(sys.stdlib_module_names) | {"imp", "distutils", "asynchat", "asyncore", "smtpd", "parser", "symbol", "formatter"}

    def bad(kind, m, where, node, msg):
        rep.find(kind, f"{m.name}{'.' + where if where else ''}: {msg[0]}", f"{m.rel}:{getattr(node, 'lineno', 1)}", msg[1])

    sets = Sets()
    for m in model.modules.values():
        rep.count("modules")
        pm = module_parents(m)
        fm = {}
        for f in model.funcs:
            if f.module is m:
                for n in own_nodes(f.node):
                    fm.setdefault(n, f)
        try:
            ast.parse(m.src, m.path, feature_version=LOW)
        except SyntaxError as ex:
            rep.find("syntax", f"{m.name}: {ex.msg}", f"{m.rel}:{ex.lineno}", f"syntax not available in Python {LOW[0]}.{LOW[1]}: {ex.msg}")
        _fstrings(rep, m)
        lazy = _annotation_positions(m)
        for n in ast.walk(m.tree):
            ctx = fm.get(n, m)
            where = ctx.qual[len(m.name) + 1:] if isinstance(ctx, Func) else ""
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                names = [a.name for a in n.names] if isinstance(n, ast.Import) else ([n.module] if n.level == 0 else [])
                rep.count("imports")
                for full in names:
                    top = full.split(".")[0]
                    if top == model.pkg or top == "__future__":
                        continue
                    if top in std:
                        v = ADDED.get(top) or ADDED.get(full)
                        if v and v > LOW and not optional(n, pm):
                            bad("too-new", m, where, n, (full, f"module {full} exists only since Python {v[0]}.{v[1]}"))
                        v = REMOVED.get(top) or REMOVED.get(full)
                        if v and not optional(n, pm):
                            bad("removed", m, where, n, (full, f"module {full} is gone since Python {v[0]}.{v[1]}"))
                    elif top not in ALLOWED_THIRD and not optional(n, pm):
                        at_import = not isinstance(ctx, Func)
                        if at_import and m.name in eager:
                            bad("dependency", m, where, n, (top, f"importing the package needs {top}, which is not a declared dependency"))
                        elif ".debug" not in m.name:
                            bad("dependency", m, where, n, (top, f"{where or m.name} needs {top}, which is not a declared dependency"))
                if isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
                    for a in n.names:
                        _dotted(rep, m, where, n, f"{n.module}.{a.name}", pm, bad)
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if a.name != "*":
                            r = model.resolve_from(model.rel_module(m, n.level, n.module), a.name)
                            if r and r[0] == "missing" and not optional(n, pm):
                                bad("missing", m, where, n, (r[1], f"{r[1]} does not exist in the package"))
            elif isinstance(n, ast.Attribute):
                r = resolve(ctx, n)
                if r and r[0] == "ext":
                    _dotted(rep, m, where, n, r[1], pm, bad)
                elif isinstance(n.ctx, ast.Load) and isinstance(pm.get(n), ast.Call) and pm[n].func is n:
                    if n.attr in METHODS and not optional(n, pm) and not any(n.attr in c.members for c in model.classes):
                        v = METHODS[n.attr]
                        bad("too-new", m, where, n, (n.attr, f"method .{n.attr}() exists only since Python {v[0]}.{v[1]}"))
                    if n.attr in GONE_METHODS and not any(n.attr in c.members for c in model.classes):
                        v = GONE_METHODS[n.attr]
                        bad("removed", m, where, n, (n.attr, f"method .{n.attr}() is gone since Python {v[0]}.{v[1]}"))
                    if n.attr == "is_integer" and _fraction_like(n.value) and not optional(n, pm):
                        bad("too-new", m, where, n, ("Fraction.is_integer", "Fraction.is_integer()/int.is_integer() exist only since Python 3.12"))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in ADDED and ADDED[n.id] > LOW and resolve(ctx, n) in (("builtin", n.id), None) and not optional(n, pm):
                    bad("too-new", m, where, n, (n.id, f"{n.id} exists only since Python {ADDED[n.id][0]}.{ADDED[n.id][1]}"))
                if n.id in ("aiter", "anext"):
                    bad("too-new", m, where, n, (n.id, f"{n.id} exists only since Python 3.10"))
            elif isinstance(n, ast.Call):
                fname = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
                for k in n.keywords:
                    if (fname, k.arg) in KW and not optional(n, pm):
                        v = KW[(fname, k.arg)]
                        r = resolve(ctx, n.func)
                        if r and r[0] in ("func", "class", "param", "local"):
                            continue
                        if v is None:
                            bad("removed", m, where, n, (f"{fname}({k.arg}=)", f"argument {k.arg}= of {fname} is gone in newer Pythons"))
                        elif v > LOW:
                            bad("too-new", m, where, n, (f"{fname}({k.arg}=)", f"argument {k.arg}= of {fname} exists only since Python {v[0]}.{v[1]}"))
                r = resolve(ctx, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                if r == ("ext", "random.sample") and n.args and (sets.is_set(ctx, n.args[0]) or _dict_like(ctx, n.args[0])) and not optional(n, pm):
                    bad("removed", m, where, n, ("random.sample(set)", "random.sample of a set raises a TypeError since Python 3.11"))
                if r in (("ext", "random.shuffle"),) and len(n.args) > 1 and not optional(n, pm):
                    bad("removed", m, where, n, ("random.shuffle(x, random)", "the second argument of random.shuffle is gone since Python 3.11"))
                if r == ("ext", "math.factorial") and n.args and isinstance(n.args[0], (ast.Call, ast.BinOp)) and not optional(n, pm):
                    a = n.args[0]
                    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Div) or isinstance(a, ast.Call) and getattr(a.func, "id", "") == "float":
                        bad("removed", m, where, n, ("math.factorial(float)", "math.factorial refuses floats since Python 3.12"))
                if r == ("ext", "math.gcd") and (len(n.args) != 2 or any(isinstance(a, ast.Starred) for a in n.args)) and not optional(n, pm):
                    bad("too-new", m, where, n, ("math.gcd(*many)", "math.gcd takes exactly two arguments before Python 3.9"))
                if r == ("builtin", "isinstance") and len(n.args) == 2:
                    a = n.args[1]
                    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr) and not optional(n, pm):
                        bad("too-new", m, where, n, ("isinstance union", "isinstance(x, A | B) works only since Python 3.10"))
                    if r[1] == "isinstance" and isinstance(a, (ast.Name, ast.Attribute)):
                        rr = resolve(ctx, a)
                        if rr and rr[0] == "assign" and isinstance(rr[2], ast.Subscript):
                            q = resolve(rr[1], rr[2].value) if isinstance(rr[2].value, (ast.Name, ast.Attribute)) else None
                            if q == ("ext", "typing.Union") and not optional(n, pm):
                                bad("too-new", m, where, n, ("isinstance Union", "isinstance(x, Union[...]) works only since Python 3.10"))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                if n in lazy:
                    continue
                r = resolve(ctx, n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                if r and r[0] == "builtin" and r[1] in GENERIC and not optional(n, pm):
                    bad("too-new", m, where, n, (ast.unparse(n), f"`{ast.unparse(n)}` is evaluated at run time and works only since Python 3.9"))
                if r and r[0] == "ext" and any(r[1].startswith(g) for g in GENERIC_EXT) and not r[1].startswith("collections.abc.Callable.") and not optional(n, pm):
                    if not _is_value_subscript(n):
                        bad("too-new", m, where, n, (ast.unparse(n), f"`{ast.unparse(n)}` is evaluated at run time and works only since Python 3.9"))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr) and n not in lazy:
                if (_is_type_like(ctx, n.left) and _is_type_like(ctx, n.right)) and not optional(n, pm):
                    bad("too-new", m, where, n, (ast.unparse(n), f"the union `{ast.unparse(n)}` is evaluated at run time and works only since Python 3.10"))
                if (_dict_like(ctx, n.left) or _dict_like(ctx, n.right)) and not optional(n, pm):
                    bad("too-new", m, where, n, (ast.unparse(n), "merging dictionaries with | works only since Python 3.9"))
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.BitOr):
                if (_dict_like(ctx, n.target) or _dict_like(ctx, n.value)) and not optional(n, pm):
                    bad("too-new", m, where, n, (ast.unparse(n), "updating dictionaries with |= works only since Python 3.9"))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [ast.unparse(d) for d in n.decorator_list]
                for d in n.decorator_list:
                    e = d.func if isinstance(d, ast.Call) else d
                    while isinstance(e, ast.Attribute):
                        e = e.value
                    if not isinstance(e, ast.Name):
                        bad("too-new", m, where, n, (f"decorator {ast.unparse(d)}", "decorators other than dotted names and calls of them are syntax of Python 3.9"))
                if "classmethod" in decs and "property" in decs and decs.index("classmethod") < decs.index("property"):
                    bad("removed", m, where, n, (f"{n.name}: classmethod property", "stacking @classmethod on @property works only on Python 3.9 to 3.12"))
            elif isinstance(n, ast.With) and len(n.items) > 1 and not optional(n, pm):
                last = n.items[-1].optional_vars or n.items[-1].context_expr
                first = n.items[0].context_expr
                if "(" in _between(m, (n.lineno, n.col_offset), (first.lineno, first.col_offset)) and ")" in _between(m, (last.end_lineno, last.end_col_offset), (n.body[0].lineno, n.body[0].col_offset)):
                    bad("too-new", m, where, n, ("bracketed with", "several context managers in brackets are syntax of Python 3.9"))
            elif isinstance(n, ast.NamedExpr) and isinstance(pm.get(n), (ast.Set, ast.Subscript)) and _between(m, (n.lineno, max(0, n.col_offset - 1)), (n.lineno, n.col_offset)) in ("[", "{", ",", " "):
                bad("too-new", m, where, n, ("walrus without brackets", "an assignment expression without brackets in a set or an index is syntax of Python 3.9/3.10"))
            elif isinstance(n, ast.For) and isinstance(n.iter, ast.Tuple) and any(isinstance(x, ast.Starred) for x in n.iter.elts):
                if (ast.get_source_segment(m.src, n.iter) or "(")[0] != "(":
                    bad("too-new", m, where, n, ("for over a starred list", "unpacking in the head of a for loop without brackets is syntax of Python 3.9"))
    # dataclass defaults must be hashable since 3.11
    for c in model.classes:
        if not c.is_dataclass:
            continue
        for name in c.order:
            st = c.anns[name]
            rep.count("dataclass fields")
            v = st.value
            if v is None:
                continue
            why = None
            if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                why = "a mutable display"
            else:
                k = _instance_class(c.module, v, model)
                if k is not None and _unhashable(k):
                    why = f"an instance of {k.name}, which is unhashable,"
            if why:
                rep.find("unhashable-default", f"{c.qual}.{name}", f"{c.module.rel}:{st.lineno}", f"the default of dataclass field {name} is {why} and is rejected at class creation since Python 3.11")
    _setup(rep, model)
    rep.floor("modules", 10)
    rep.floor("imports", 40)
    return rep.finish(
        "Every module was parsed with the 3.8 grammar; every import, attribute of a standard-library module, call keyword, run-time evaluated annotation, union and dictionary merge, dataclass default and f-string was compared with a table of when Python (3.8 to 3.14) and numpy (1.x to 2.x) added or removed it; the import closure of the package was computed.",
        "use of a construct or name absent from some supported version (unless guarded by a version test or an import fallback); a third-party import other than numpy reachable by importing or using the package outside its debug tools",
        ["the tables cover the language and standard-library areas relevant to a pure-Python algebra package; modules not listed are assumed stable since 3.8"],
    )


def _between(m, a, b):
    """Source text from position a to position b (columns count bytes)."""
    ls = m.src.splitlines(keepends=True)
    part = [l.encode() for l in ls[a[0] - 1:b[0]]]
    if not part:
        return ""
    part[-1] = part[-1][:b[1]]
    part[0] = part[0][a[1]:]
    return b"".join(part).decode(errors="replace")


def _is_value_subscript(n):
    return isinstance(n.slice, ast.Constant) and not isinstance(n.slice.value, str)


def _fraction_like(e):
    return (isinstance(e, ast.Call) and getattr(e.func, "id", "") in ("Fraction", "int", "len", "abs", "round")) or (isinstance(e, ast.Attribute) and e.attr in ("numerator", "denominator"))


def _dict_like(ctx, e):
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("dict", "defaultdict", "OrderedDict", "Counter"):
        return e.func.id != "Counter"
    if isinstance(e, ast.Name):
        r = lookup(ctx, e.id)
        if r and r[0] == "local":
            from ..astutil import scope

            vals = scope(r[1]).assigned.get(e.id, [])
            return any(isinstance(v, (ast.Dict, ast.DictComp)) or (isinstance(v, ast.Call) and getattr(v.func, "id", "") in ("dict", "defaultdict")) for v in vals if v is not None)
        if r and r[0] == "assign":
            return isinstance(r[2], (ast.Dict, ast.DictComp))
    return False


def _dotted(rep, m, where, n, d, pm, bad):
    rep.count("library names")
    if d in ADDED and ADDED[d] > LOW and not optional(n, pm):
        bad("too-new", m, where, n, (d, f"{d} exists only since Python {ADDED[d][0]}.{ADDED[d][1]}"))
    if d in REMOVED and not optional(n, pm):
        bad("removed", m, where, n, (d, f"{d} is gone since Python {REMOVED[d][0]}.{REMOVED[d][1]}"))
    if d.startswith(("numpy.", "np.")) and not optional(n, pm):
        leaf = d.split(".", 1)[1]
        if leaf in NUMPY_GONE:
            bad("removed", m, where, n, (d, f"{d} is missing in some supported numpy release"))
        elif leaf in NUMPY_NEW:
            bad("too-new", m, where, n, (d, f"{d} exists only in numpy 2"))


def _instance_class(m, v, model):
    """The package class a default expression is an instance of, if evident."""
    if isinstance(v, ast.Call):
        r = model.resolve_expr(m, v.func)
        return r[1] if r and r[0] == "class" else None
    if isinstance(v, ast.Name):
        r = model.resolve(m, v.id)
        if r and r[0] == "assign" and r[2] is not None:
            return _instance_class(r[1], r[2], model)
    return None


def _unhashable(c):
    for k in c.mro_classes():
        has_eq = "__eq__" in k.members and k.members["__eq__"][0] != "ann"
        has_hash = "__hash__" in k.members
        if has_hash:
            mem = k.members["__hash__"]
            return mem[0] == "assign" and isinstance(mem[1], ast.Constant) and mem[1].value is None
        if k.is_dataclass and k.dataclass_opts.get("eq", True) and not k.dataclass_opts.get("unsafe_hash") and not k.dataclass_opts.get("frozen"):
            return True
        if has_eq:
            return True
    return False


def _fstrings(rep, m):
    """Same-quote nesting, backslashes and comments inside f-string fields need Python 3.12."""
    if sys.version_info < (3, 12):
        return
    stack = []
    try:
        for t in tokenize.generate_tokens(io.StringIO(m.src).readline):
            name = tokenize.tok_name[t.type]
            if name == "FSTRING_START":
                q = re.sub(r"^[A-Za-z]*", "", t.string)
                if stack and stack[-1] == q:
                    rep.find("syntax", f"{m.name}: nested quotes in f-string", f"{m.rel}:{t.start[0]}", "reusing the quote inside an f-string field needs Python 3.12")
                stack.append(q)
            elif name == "FSTRING_END":
                stack.pop()
            elif stack:
                if name == "STRING":
                    q = re.sub(r"^[A-Za-z]*", "", t.string)
                    q = q[:3] if q[:3] in ("'" * 3, '"' * 3) else q[:1]
                    if q == stack[-1] or (len(stack[-1]) == 3 and q == stack[-1]):
                        rep.find("syntax", f"{m.name}: nested quotes in f-string", f"{m.rel}:{t.start[0]}", "reusing the quote inside an f-string field needs Python 3.12")
                    if "\\" in t.string:
                        rep.find("syntax", f"{m.name}: backslash in f-string field", f"{m.rel}:{t.start[0]}", "a backslash inside an f-string field needs Python 3.12")
                elif name == "COMMENT":
                    rep.find("syntax", f"{m.name}: comment in f-string field", f"{m.rel}:{t.start[0]}", "a comment inside an f-string field needs Python 3.12")
    except (tokenize.TokenError, IndexError):
        rep.undecide(m.name, "tokenisation of f-strings failed")


def _setup(rep, model):
    p = os.path.join(model.repo, "setup.py")
    if not os.path.exists(p):
        return
    try:
        t = ast.parse(open(p, encoding="utf-8").read())
    except SyntaxError:
        return
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("setup"):
            for k in n.keywords:
                if k.arg == "python_requires" and isinstance(k.value, ast.Constant):
                    rep.notes.append(f"declared: Python {k.value.value}")
                if k.arg == "install_requires" and isinstance(k.value, ast.List):
                    rep.notes.append("declared dependencies: " + ", ".join(str(getattr(e, "value", "?")) for e in k.value.elts))
