"""Abstract versions of the Python builtins and standard-library functions the package uses."""
import itertools
from fractions import Fraction

from ..model import Class
from . import terms as T
from .values import (
    Arr, BoolV, Bound, BuiltinV, ExprV, FuncV, Infeasible, ModV, Native, NumV, ObjV, Opaque, PDict, PIter, PList, PSet, Raised, StrV, SubsV, Undecided, as_term,
)

HOSTNUM = (int, float, Fraction)


def num(it, t, kind, taint=None):
    return it.mknum(t, kind, taint)


def call_builtin(it, name, a, k, node):
    hook = getattr(it.spec, "builtin_hook", None)
    if hook is not None:
        r = hook(it, name, a, k)
        if r is not NotImplemented:
            return r
    f = TABLE.get(name) or TABLE.get(name.split(".")[-1] if name.split(".")[0] in ("builtins", "functools", "itertools", "dataclasses", "copy", "inspect", "operator", "collections") else name)
    if f is not None:
        return f(it, a, k)
    if name.startswith("math."):
        return math_fn(it, name[5:], a)
    if name.startswith("numpy."):
        return numpy_fn(it, name[6:], a, k)
    if name.split(".")[0] in ("warnings", "logging", "print"):
        return None
    if name[:1].isupper() and (name.endswith("Error") or name in ("Exception", "Warning", "UserWarning", "BaseException", "StopIteration", "KeyboardInterrupt")):
        return Opaque(f"exception {name}")
    if name.split(".")[0] in ("time", "random", "os", "uuid", "datetime", "secrets", "string", "sys", "re"):
        return Opaque(name)
    raise Undecided(f"builtin {name}")


def numpy_fn(it, n, a, k):
    def arr(v):
        items = list(it.iterate(v))
        return Arr([Arr(x.items) if isinstance(x, PList) else Arr(x) if isinstance(x, tuple) else x for x in items])

    if n in ("array", "asarray"):
        return arr(a[0])
    if n == "concatenate":
        return Arr([x for v in it.iterate(a[0]) for x in it.iterate(v)])
    if n in ("zeros", "ones") and isinstance(a[0], int):
        return Arr([float(n == "ones")] * a[0])
    if n == "flip" and isinstance(a[0], PList):
        return Arr(list(reversed(a[0].items)))
    if n == "append":
        return Arr(list(it.iterate(a[0])) + (list(it.iterate(a[1])) if isinstance(a[1], PList) else [a[1]]))
    raise Undecided(f"numpy.{n}")


def math_fn(it, n, a):
    r = _math_fn(it, n, a)
    if it.world.exact:
        t = next((v.taint for v in a if isinstance(v, NumV) and v.taint), None)
        if isinstance(r, float) or isinstance(r, NumV) and not r.taint and (r.kind == "float" or t):
            return NumV(as_term(r), it.nkind(r), t or f"math.{n}")
        if isinstance(r, int) and t:
            return NumV(as_term(r), "int", t)
    return r


def _math_fn(it, n, a):
    x = a[0] if a else None
    if isinstance(x, Opaque):
        return Opaque("math")
    if n in ("sin", "cos", "tan", "asin", "acos", "atan"):
        return NumV(T.fn(n, as_term(x)), "float")
    if n == "log":
        if len(a) > 1:
            return NumV(("log", as_term(x), as_term(a[1])), "float")
        return NumV(T.fn("ln", as_term(x)), "float")
    if n in ("log2", "log10"):
        return NumV(("log", as_term(x), T.q(2 if n == "log2" else 10)), "float", "float logarithm")
    if n == "sqrt":
        return NumV(T.pow_(as_term(x), T.q(Fraction(1, 2))), "float", "float square root")
    if n == "exp":
        return NumV(T.pow_(T.E_, as_term(x)), "float")
    if n == "pow":
        return NumV(T.pow_(as_term(x), as_term(a[1])), "float", "float power")
    if n in ("floor", "ceil", "trunc"):
        t = as_term(x)
        return num(it, (n if n != "trunc" else "trunc", t), "int") if not T.isq(t) else __import__("math").__dict__[n](t[1])
    if n == "fabs":
        return NumV(T.fn("abs", as_term(x)), "float")
    if n == "prod":
        r = 1
        for v in it.iterate(x):
            r = it.binop(__import__("ast").Mult, r, v)
        return r
    if n in ("fsum",):
        r = 0
        for v in it.iterate(x):
            r = it.binop(__import__("ast").Add, r, v)
        return r
    if n == "factorial" and isinstance(x, int):
        return __import__("math").factorial(x)
    if n in ("gcd", "lcm", "comb", "perm", "isqrt") and all(isinstance(v, int) for v in a):
        return getattr(__import__("math"), n)(*a)
    if n in ("isnan", "isinf", "isfinite"):
        if isinstance(x, HOSTNUM):
            return getattr(__import__("math"), n)(x)
        t = as_term(x)
        return {"isnan": False, "isinf": t in (T.INF, T.NINF), "isfinite": t not in (T.INF, T.NINF)}[n]
    return Opaque(f"math.{n}")


def b_isinstance(it, a, k):
    return it.instance_of(a[0], a[1])


def b_issubclass(it, a, k):
    from .interp import ClassOf

    c, d = a
    if isinstance(c, ClassOf):
        return it.instance_of(c.x, d)
    if isinstance(c, BuiltinV) or not isinstance(c, Class):
        return False
    ds = list(it._flat([d])) if isinstance(d, (tuple, PList)) else [d]
    if isinstance(d, tuple):
        ds = list(it._flat(list(d)))
    return any(isinstance(x, Class) and x in c.mro() for x in ds)


def b_len(it, a, k):
    x = a[0]
    if isinstance(x, (PList, PSet)):
        return len(x.items)
    if isinstance(x, PDict):
        return len(x.d)
    if isinstance(x, (tuple, str)):
        return len(x)
    if isinstance(x, StrV):
        return NumV(("opq", "len" + repr(x.parts)), "int")
    if isinstance(x, ExprV):
        has = frozenset(c for c in x.rep().classes if c.lookup("__len__"))
        if not has:
            raise Raised("TypeError", ("len",))
        if has != x.rep().classes:
            if it.choose(2) == 1:
                it.refine(x, x.rep().classes - has)
                raise Raised("TypeError", ("len",))
            it.refine(x, has)
        it.exact_class(x)
        return len(it.field(x, "terms").items)
    if isinstance(x, ObjV):
        return it.call_method(x, "__len__", [], {})
    if isinstance(x, Opaque):
        return Opaque("len")
    raise Undecided("len")


def b_range(it, a, k):
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 100:
            raise Undecided("long range")
        return r
    raise Undecided("symbolic range")


def b_zip(it, a, k):
    return PIter(iter([tuple(x) for x in zip(*[list(it.iterate(v)) for v in a])]))


def b_map(it, a, k):
    its = [it.iterate(v) for v in a[1:]]
    return PIter(it.call(a[0], list(x), {}) for x in zip(*its))


def b_filter(it, a, k):
    f = a[0]
    return PIter(v for v in it.iterate(a[1]) if it.truth(v if f is None else it.call(f, [v], {})))


def b_any(it, a, k):
    for v in it.iterate(a[0]):
        if it.truth(v):
            return True
    return False


def b_all(it, a, k):
    for v in it.iterate(a[0]):
        if not it.truth(v):
            return False
    return True


def b_sum(it, a, k):
    import ast

    r = a[1] if len(a) > 1 else k.get("start", 0)
    for v in it.iterate(a[0]):
        r = it.binop(ast.Add, r, v)
    return r


def b_minmax(which):
    def f(it, a, k):
        items = list(it.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            raise Raised("ValueError", ())
        key = k.get("key")
        best = items[0]
        for v in items[1:]:
            x, y = (it.call(key, [v], {}), it.call(key, [best], {})) if key is not None else (v, best)
            if it.truth(it.order("<" if which == "min" else ">", x, y)):
                best = v
        return best

    return f


def b_sorted(it, a, k):
    # any order-insensitive property holds for the given order; ordering itself is the subject of C04
    return PList(list(it.iterate(a[0])))


def b_reversed(it, a, k):
    return PIter(iter(list(it.iterate(a[0]))[::-1]))


def b_list(it, a, k):
    return PList(list(it.iterate(a[0])) if a else [])


def b_tuple(it, a, k):
    return tuple(it.iterate(a[0])) if a else ()


def b_set(it, a, k):
    s = PSet()
    for v in it.iterate(a[0]) if a else ():
        if not it.truth(it.contains_item(s, v)):
            s.items.append(v)
    return s


def b_dict(it, a, k):
    d = PDict()
    if a:
        if isinstance(a[0], PDict):
            d.d.update(a[0].d)
        else:
            for kv in it.iterate(a[0]):
                kk, vv = list(it.iterate(kv))
                d.d[it.dkey(kk)] = vv
    d.d.update(k)
    return d


def b_defaultdict(it, a, k):
    return PDict((), factory=a[0] if a else None)


def b_str(it, a, k):
    return it.to_str(a[0]) if a else ""


def b_repr(it, a, k):
    return it.to_str(a[0], repr_=True)


def b_int(it, a, k):
    x = a[0] if a else 0
    if isinstance(x, BoolV):
        return int(it.truth(x))
    if isinstance(x, HOSTNUM):
        try:
            return int(x)
        except (ValueError, OverflowError) as ex:
            raise Raised(type(ex).__name__, ())
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise Raised("ValueError", ())
    if isinstance(x, NumV):
        if x.kind == "int" or it.known_int(x.t):
            return num(it, x.t, "int", x.taint)
        return num(it, ("trunc", x.t), "int", x.taint or ("truncation of a float" if x.kind == "float" else None))
    if isinstance(x, ExprV):
        raise Raised("TypeError", ("int of expression",))
    return Opaque("int")


def b_float(it, a, k):
    x = a[0] if a else 0.0
    if isinstance(x, HOSTNUM) and not isinstance(x, Fraction):
        if it.world.exact and not isinstance(x, float):
            return NumV(as_term(x), "float", "conversion to float")
        return float(x)
    if isinstance(x, str):
        return float(x)
    if isinstance(x, (NumV, Fraction)):
        return NumV(as_term(x), "float", "conversion to float")
    return Opaque("float")


def b_fraction(it, a, k):
    if not a:
        return Fraction(0)
    if all(isinstance(x, (int, Fraction)) for x in a):
        try:
            return Fraction(*a)
        except ZeroDivisionError:
            raise Raised("ZeroDivisionError", ())
    if any(isinstance(x, Opaque) for x in a):
        return Opaque("Fraction")
    if isinstance(a[0], str):
        return Fraction(a[0])
    t = as_term(a[0])
    if len(a) > 1:
        d = as_term(a[1])
        if not T.isq(d) and it.decide(it.cmp_terms("==", d, T.ZERO)):
            raise Raised("ZeroDivisionError", ())
        t = T.div(t, d)
    taint = next((x.taint or "conversion from float" for x in a if isinstance(x, NumV) and (x.taint or x.kind == "float")), None)
    return num(it, t, "frac", taint)


def b_abs(it, a, k):
    x = a[0]
    if isinstance(x, HOSTNUM):
        return abs(x)
    if isinstance(x, NumV):
        if it.decide(it.cmp_terms("<", x.t, T.ZERO)):
            return num(it, T.neg(x.t), x.kind, x.taint)
        return x
    if isinstance(x, ExprV):
        h = it.contracts.get(("op", "abs"))
        return h(it, x)
    return Opaque("abs")


def b_round(it, a, k):
    x = a[0]
    if isinstance(x, HOSTNUM) and all(isinstance(v, int) for v in a[1:]):
        return round(*a)
    if isinstance(x, NumV) and len(a) == 1:
        return num(it, ("round", x.t), "int", x.taint or ("rounding" if x.kind == "float" else None))
    return Opaque("round")


def b_bool(it, a, k):
    return it.truth(a[0]) if a else False


def b_hasattr(it, a, k):
    o, n = a[0], a[1]
    if isinstance(o, ExprV):
        x = o.rep()
        if n in x.f:
            return True
        if n.startswith("_") and not any(c.lookup(n) for c in x.classes):
            return False

        def key(c):
            return n in it.kinds.fields[c] or c.lookup(n) is not None

        return it.group(x, key, f"hasattr {n}")
    if isinstance(o, ObjV):
        return n in o.f or o.cls.lookup(n) is not None
    if isinstance(o, Class):
        return o.lookup(n) is not None
    if isinstance(o, Opaque):
        return bool(it.choose(2))
    if isinstance(o, (PList, PDict, PSet, tuple, str)):
        proto = {PList: list, PDict: dict, PSet: set, tuple: tuple, str: str}[type(o)]
        return hasattr(proto, n)
    if isinstance(o, HOSTNUM):
        return hasattr(o, n)
    if isinstance(o, NumV):
        return hasattr({"int": int, "frac": Fraction, "float": float}[o.kind], n)
    if isinstance(o, (FuncV, Bound, Native)):
        return n in ("__call__", "__name__")
    if o is None:
        return hasattr(None, n)
    raise Undecided("hasattr")


def b_getattr(it, a, k):
    if not isinstance(a[1], str):
        raise Undecided("dynamic attribute")
    if len(a) > 2:
        try:
            return it.getattr(a[0], a[1])
        except Raised as r:
            if r.exc == "AttributeError":
                return a[2]
            raise
    return it.getattr(a[0], a[1])


def b_setattr(it, a, k):
    if not isinstance(a[1], str):
        raise Undecided("dynamic attribute")
    it.setattr(a[0], a[1], a[2])


def b_type(it, a, k):
    from .interp import ClassOf

    x = a[0]
    if isinstance(x, ExprV):
        return x.exact or ClassOf(x)
    if isinstance(x, ObjV):
        return x.cls
    if isinstance(x, (int, float, str, bool)):
        return BuiltinV(type(x).__name__)
    if isinstance(x, Fraction):
        return BuiltinV("Fraction")
    if isinstance(x, NumV):
        return BuiltinV({"int": "int", "frac": "Fraction", "float": "float"}[x.kind])
    if isinstance(x, PList):
        return BuiltinV("list")
    return Opaque("type")


def b_reduce(it, a, k):
    items = list(it.iterate(a[1]))
    if len(a) > 2:
        r = a[2]
    else:
        if not items:
            raise Raised("TypeError", ("reduce of empty",))
        r = items.pop(0)
    for v in items:
        r = it.call(a[0], [r, v], {})
    return r


def b_product(it, a, k):
    rep = k.get("repeat", 1)
    pools = [list(it.iterate(x)) for x in a] * rep
    return PIter(iter([tuple(x) for x in itertools.product(*pools)]))


def b_comb(fn):
    def f(it, a, k):
        return PIter(iter([tuple(x) for x in fn(list(it.iterate(a[0])), *a[1:])]))

    return f


def b_chain(it, a, k):
    def g():
        for x in a:
            yield from it.iterate(x)

    return PIter(g())


def b_enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    return PIter((i + start, v) for i, v in enumerate(it.iterate(a[0])))


def b_iter(it, a, k):
    return PIter(it.iterate(a[0]))


def b_next(it, a, k):
    o = a[0]
    if isinstance(o, PIter):
        for v in o.it:
            return v
        if len(a) > 1:
            return a[1]
        raise Raised("StopIteration", ())
    raise Undecided("next")


def b_fields(it, a, k):
    from .interp import ClassOf

    o = a[0]
    if isinstance(o, ExprV):
        c = it.exact_class(o)
    elif isinstance(o, ObjV):
        c = o.cls
    elif isinstance(o, Class):
        c = o
    else:
        raise Undecided("fields")
    out = []
    for n, ann, default, owner in c.dataclass_fields():
        t = None
        import ast as _a

        if isinstance(ann, (_a.Name, _a.Attribute)):
            r = it.model.resolve_expr(owner.module, ann)
            if r and r[0] == "class":
                t = r[1]
        out.append(FieldV(n, t))
    return tuple(out)


class _F:
    pass


def FieldV(n, t):
    o = ObjV(_fieldcls())
    o.f = {"name": n, "type": t if t is not None else Opaque("annotation")}
    return o


_fc = None


def _fieldcls():
    global _fc
    if _fc is None:
        import ast

        node = ast.parse("class Field: pass").body[0]
        from ..model import get_model

        _fc = Class("Field", node, next(iter(get_model().modules.values())))
        _fc.anns = {}
    return _fc


def b_copy(it, a, k):
    x = a[0]
    if isinstance(x, PList):
        return PList(x.items)
    if isinstance(x, PDict):
        return PDict(x.d, x.factory)
    return x


def b_divmod(it, a, k):
    import ast

    return (it.binop(ast.FloorDiv, a[0], a[1]), it.binop(ast.Mod, a[0], a[1]))


def b_pow(it, a, k):
    import ast

    return it.binop(ast.Pow, a[0], a[1])


def _op(name):
    import ast

    def f(it, a, k):
        return it.binop(getattr(ast, name), a[0], a[1])

    return f


def b_isclass(it, a, k):
    from .interp import ClassOf

    return isinstance(a[0], (Class, ClassOf)) or isinstance(a[0], BuiltinV)


def b_objnew(it, a, k):
    return it.object_new(a[0])


def b_namedtuple(it, a, k):
    return Opaque("namedtuple")


def b_partial(it, a, k):
    f, pre = a[0], a[1:]
    return Native("static", lambda i, x, kk: i.call(f, list(pre) + list(x), {**k, **kk}))


TABLE = {
    "isinstance": b_isinstance, "issubclass": b_issubclass, "len": b_len, "range": b_range, "zip": b_zip, "map": b_map, "filter": b_filter, "any": b_any, "all": b_all,
    "sum": b_sum, "min": b_minmax("min"), "max": b_minmax("max"), "sorted": b_sorted, "reversed": b_reversed, "list": b_list, "tuple": b_tuple, "set": b_set, "frozenset": b_set,
    "dict": b_dict, "defaultdict": b_defaultdict, "OrderedDict": b_dict, "str": b_str, "repr": b_repr, "int": b_int, "float": b_float, "Fraction": b_fraction, "abs": b_abs, "round": b_round,
    "bool": b_bool, "hasattr": b_hasattr, "getattr": b_getattr, "setattr": b_setattr, "object.__setattr__": b_setattr, "type": b_type, "reduce": b_reduce, "product": b_product,
    "combinations": b_comb(itertools.combinations), "permutations": b_comb(itertools.permutations), "combinations_with_replacement": b_comb(itertools.combinations_with_replacement), "chain": b_chain,
    "enumerate": b_enumerate, "iter": b_iter, "next": b_next, "fields": b_fields, "copy": b_copy, "deepcopy": b_copy, "divmod": b_divmod, "pow": b_pow,
    "add": _op("Add"), "mul": _op("Mult"), "sub": _op("Sub"), "truediv": _op("Div"), "isclass": b_isclass, "object.__new__": b_objnew, "namedtuple": b_namedtuple, "partial": b_partial,
    "print": lambda it, a, k: None, "id": lambda it, a, k: Opaque("id"), "hash": lambda it, a, k: Opaque("hash"), "callable": lambda it, a, k: isinstance(a[0], (FuncV, Bound, Native, BuiltinV, Class)),
    "cmp_to_key": lambda it, a, k: Opaque("sort key"), "input": lambda it, a, k: Opaque("input"), "wraps": lambda it, a, k: Native("static", lambda i, x, kk: x[0]),
    "dict.fromkeys": lambda it, a, k: PDict((it.dkey(x), None) for x in it.iterate(a[0])), "chain.from_iterable": lambda it, a, k: PIter(v for x in it.iterate(a[0]) for v in it.iterate(x)),
    "itertools.chain.from_iterable": lambda it, a, k: PIter(v for x in it.iterate(a[0]) for v in it.iterate(x)),
    "object": lambda it, a, k: Opaque("object"), "lru_cache": lambda it, a, k: a[0] if a and not isinstance(a[0], int) else Native("static", lambda i, x, kk: x[0]),
    "property": lambda it, a, k: __import__("simpycheck.vflow.interp", fromlist=["PropV"]).PropV("property", a[0]),
}


def container_method(it, o, name, a, k):
    if isinstance(o, PList):
        L = o.items
        if name in ("append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear", "__iadd__") and o.origin is not None:
            it.mutated(f"{name} on a list", o.origin)
        if name == "append":
            L.append(a[0])
            return None
        if name == "extend":
            L.extend(list(it.iterate(a[0])))
            return None
        if name == "insert":
            L.insert(a[0], a[1])
            return None
        if name == "pop":
            if not L:
                raise Raised("IndexError", ())
            return L.pop(*a)
        if name == "remove":
            for i, v in enumerate(L):
                if it.truth(it.equal(v, a[0])):
                    del L[i]
                    return None
            raise Raised("ValueError", ())
        if name == "index":
            for i, v in enumerate(L):
                if it.truth(it.equal(v, a[0])):
                    return i
            raise Raised("ValueError", ())
        if name == "count":
            return sum(1 for v in L if it.truth(it.equal(v, a[0])))
        if name == "copy":
            return PList(L)
        if name == "clear":
            L.clear()
            return None
        if name == "sort":
            return None
        if name == "reverse":
            L.reverse()
            return None
        if name in ("__len__",):
            return len(L)
        if name == "__iter__":
            return PIter(iter(list(L)))
        if name == "__getitem__":
            return it.getitem(o, a[0])
        if name == "__contains__":
            return it.contains_item(o, a[0])
    if isinstance(o, tuple):
        if name == "index":
            for i, v in enumerate(o):
                if it.truth(it.equal(v, a[0])):
                    return i
            raise Raised("ValueError", ())
        if name == "count":
            return sum(1 for v in o if it.truth(it.equal(v, a[0])))
        if name == "__len__":
            return len(o)
    if isinstance(o, PSet):
        if name == "add":
            if not it.truth(it.contains_item(o, a[0])):
                o.items.append(a[0])
            return None
        if name == "update":
            for x in a:
                for v in it.iterate(x):
                    if not it.truth(it.contains_item(o, v)):
                        o.items.append(v)
            return None
        if name in ("union",):
            s = PSet(o.items)
            container_method(it, s, "update", a, k)
            return s
        if name in ("discard", "remove"):
            o.items = [v for v in o.items if not it.truth(it.equal(v, a[0]))]
            return None
    if isinstance(o, PDict):
        d = o.d
        if name == "get":
            kk = a[0]
            if isinstance(kk, StrV) and len(kk.parts) == 1 and not isinstance(kk.parts[0], str) and kk.parts[0][0] == "num":
                try:
                    return it.getitem(o, kk)
                except Raised:
                    return a[1] if len(a) > 1 else None
            return d.get(it.dkey(kk), a[1] if len(a) > 1 else None)
        if name == "items":
            return PList([(it.keyobj.get(kk, kk), v) for kk, v in d.items()])
        if name == "keys":
            return PList([it.keyobj.get(kk, kk) for kk in d])
        if name == "values":
            return PList(list(d.values()))
        if name == "setdefault":
            return d.setdefault(it.dkey(a[0]), a[1] if len(a) > 1 else None)
        if name == "pop":
            kk = it.dkey(a[0])
            if kk in d:
                return d.pop(kk)
            if len(a) > 1:
                return a[1]
            raise Raised("KeyError", ())
        if name == "update":
            if a:
                d.update(a[0].d if isinstance(a[0], PDict) else dict((it.dkey(x), y) for x, y in (tuple(it.iterate(p)) for p in it.iterate(a[0]))))
            d.update(k)
            return None
        if name == "copy":
            return PDict(d, o.factory)
        if name == "__contains__":
            return it.contains_item(o, a[0])
        if name == "__getitem__":
            return it.getitem(o, a[0])
    if isinstance(o, SubsV):
        h = it.contracts.get(("subs", name))
        if h:
            return h(it, o, a, k)
    if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and not k:
        f = getattr(o, name, None)
        if f is not None:
            r = f(*a)
            return PList(r) if isinstance(r, list) else r
    if isinstance(o, (str, StrV)):
        if name == "join":
            parts = []
            for i, v in enumerate(it.iterate(a[0])):
                if i:
                    parts.extend([o] if isinstance(o, str) else o.parts)
                if isinstance(v, Opaque):
                    return Opaque("text")
                if not isinstance(v, (str, StrV)):
                    raise Raised("TypeError", ("join",))
                parts.extend([v] if isinstance(v, str) else v.parts)
            return it.mkstr(parts)
        if isinstance(o, str):
            if all(isinstance(v, (str, int)) for v in a):
                r = getattr(o, name)(*a, **k) if hasattr(str, name) else None
                return PList(r) if isinstance(r, list) else r
        elif name == "split" and len(a) == 1 and isinstance(a[0], str) and a[0]:
            out = [[]]
            for p in o.parts:  # what is filled in holds no separators
                if isinstance(p, str):
                    ps = p.split(a[0])
                    out[-1].append(ps[0])
                    out += [[q] for q in ps[1:]]
                else:
                    out[-1].append(p)
            return PList([it.mkstr(p) for p in out])
        elif name in ("strip", "lstrip", "rstrip") and not a:
            return o
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isnumeric"):
            return Opaque("text predicate")
        return Opaque(f"text.{name}")
    if isinstance(o, PIter) and name == "__next__":
        return b_next(it, [o], {})
    raise Raised("AttributeError", (f"{type(o).__name__}.{name}",))
