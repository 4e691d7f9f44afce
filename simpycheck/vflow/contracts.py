"""Contracts of the public operations (assume/guarantee): each is the obligation of one of the checks."""
from fractions import Fraction

from ..model import Class
from . import terms as T
from .values import BoolV, ExprV, FuncV, Native, NumV, ObjV, Opaque, PDict, PList, Raised, StrV, SubsV, Undecided, as_term

HOSTNUM = (int, float, Fraction)


def arg(a, k, i, name, default=None):
    if i < len(a):
        return a[i]
    return k.get(name, default)


def items_of(it, v):
    out = []
    for x in it.iterate(v):
        y = it.castv(x)
        if y is None:
            if isinstance(x, Opaque):
                return None
            raise Raised("TypeError", ("terms",))
        out.append(y)
    return out


def c_assoc(name):
    def f(it, c, a, k):
        if k.get("skip_checks", False) is not False:
            return NotImplemented
        terms = arg(a, k, 0, "terms")
        if isinstance(terms, Opaque):
            return Opaque(name)
        xs = items_of(it, terms)
        if xs is None:
            return Opaque(name)
        ts = [x.term() for x in xs]
        if len(xs) == 1:
            return xs[0]
        t = T.add(*ts) if name == "Sum" else T.mul(*ts)
        if not ts:
            return it.world.rat(Fraction(0 if name == "Sum" else 1))
        R = it.kinds.by_name.get("Rat")
        if all(x.rep().exact is R for x in xs):
            return it.world.rat(it.mknum(t, "frac"))
        return it.world.built(t)

    return f


def c_power(it, c, a, k):
    if k.get("skip_checks", False) is not False:
        return NotImplemented
    b, x = it.castv(arg(a, k, 0, "base")), it.castv(arg(a, k, 1, "exponent"))
    if b is None or x is None:
        return Opaque("Power")
    return it.world.built(T.pow_(b.term(), x.term()))


def c_log(it, c, a, k):
    if k.get("skip_checks", False) is not False:
        return NotImplemented
    x = it.castv(arg(a, k, 0, "inner"))
    b = arg(a, k, 1, "base")
    if x is None:
        return Opaque("log")
    tb = T.E_ if b is None else it.castv(b).term()
    return it.world.built(T.fn("ln", x.term()) if tb == T.E_ else ("log", x.term(), tb))


def c_fn(name):
    def f(it, c, a, k):
        if k.get("skip_checks", False) is not False:
            return NotImplemented
        x = it.castv(arg(a, k, 0, "inner"))
        if x is None:
            return Opaque(name)
        return it.world.built(T.fn(name.lower(), x.term()))

    return f


def c_rat(it, c, a, k):
    v, d = arg(a, k, 0, "value"), arg(a, k, 1, "denom", 1)
    if isinstance(v, (int, Fraction)) and isinstance(d, (int, Fraction)) and not isinstance(v, bool):
        if isinstance(v, Fraction):
            return it.world.rat(v)
        if int(d) == 0:
            raise Raised("ZeroDivisionError", ())
        return it.world.rat(Fraction(int(v), int(d)))
    if isinstance(v, NumV) or isinstance(d, NumV):
        if it.nkind(v) == "frac":
            return it.world.rat(v)
        tv, td = as_term(v), as_term(d)
        if it.nkind(v) == "float":
            tv = ("trunc", tv)
        taint = next((x.taint or "truncation of a float" for x in (v, d) if isinstance(x, NumV) and (x.taint or x.kind == "float")), None)
        return it.world.rat(it.mknum(T.div(tv, td), "frac", taint))
    return NotImplemented


def c_symbol(it, c, a, k):
    nm = arg(a, k, 0, "name")
    if isinstance(nm, StrV) and len(nm.parts) == 1 and isinstance(nm.parts[0], tuple) and nm.parts[0][0] == "name":
        x = it.world.leaf.get(nm.parts[0][1])
        if isinstance(x, ExprV):
            return x.rep()
    x = ExprV(it.world, frozenset([c]), fresh=True)
    x.f["name"] = nm if not isinstance(nm, Opaque) else StrV([("fresh", id(nm))])
    it.world._keepalive = getattr(it.world, "_keepalive", []) + [nm]
    x.term()
    if isinstance(nm, Opaque):
        it.world.fresh_syms.add(x.uid)
    return x


# ------------------------------------------------------------------ methods of expressions
def m(name):
    """Method contract: attr handler returning a Native."""

    def deco(fn):
        def attr(it, x):
            return Native(name, lambda i, a, k: fn(i, x, a, k))

        ATTRS[name] = attr
        return fn

    return deco


ATTRS = {}


def var_uid(it, v):
    if not isinstance(v, ExprV):
        raise Undecided("variable is not an expression")
    v = v.rep()
    if v.exact is None or v.exact.name != "Symbol":
        it.refine(v, it.kinds.set("Symbol"))
    v.term()
    it.world.var(v.uid)
    return v.uid


@m("diff")
def m_diff(it, x, a, k):
    v = arg(a, k, 0, "var")
    return diff(it, x, v)


def diff(it, x, v):
    if v is None:
        raise Undecided("derivative without a variable")
    uid = var_uid(it, v)
    if x.rep() is v.rep():
        return it.world.rat(Fraction(1))
    if x.rep().exact is not None and x.rep().exact in it.kinds.nums:
        return it.world.rat(Fraction(0))
    return it.world.built(("D", x.term(), ("a", uid)))


def subst(it, x, s):
    t = x.term()
    if isinstance(s, SubsV):
        return it.world.built(("sub", t, s.sid))
    if isinstance(s, PDict):
        pairs = []
        for kk, v in s.d.items():
            if isinstance(kk, str):
                key = repr(kk)
                uid = it.world.symbols_by_name.get(key)
                if uid is None:
                    # a symbol of that name which is none of the symbols at hand
                    uid = it.world.symbols_by_name[key] = it.world.symbol(kk).uid
            elif isinstance(kk, tuple) and kk[0] == "strv" and len(kk) == 2 and kk[1][0] == "name":
                uid = kk[1][1]
            else:
                raise Undecided("substitution key")
            it.world.var(it.world.leaf_rep(uid))
            y = it.castv(v)
            if y is None:
                return Opaque("subs")
            pairs.append((("a", uid), y.term()))
        if not pairs:
            return it.world.built(t, None)
        return it.world.built(("at", t, tuple(pairs)))
    raise Undecided("substitution")


@m("subs")
def m_subs(it, x, a, k):
    return subst(it, x, arg(a, k, 0, "subs"))


@m("evalf")
def m_evalf(it, x, a, k):
    s = arg(a, k, 0, "subs")
    if s is None:
        return it.world.built(x.term())
    return subst(it, x, s)


@m("_evalf")
def m_evalf_(it, x, a, k):
    return m_evalf(it, x, a, k)


def same(name):
    @m(name)
    def f(it, x, a, k):
        x = x.rep()
        key = ("same", name)
        if key not in x.notes:
            x.notes[key] = it.world.built(x.term())
        return x.notes[key]


for n_ in ("expand", "simplify", "factor", "_expand"):
    same(n_)


@m("contains")
def m_contains(it, x, a, k):
    v = arg(a, k, 0, "var")
    if isinstance(v, Opaque):
        return Opaque("contains")
    uid = var_uid(it, v)
    x = x.rep()
    if x is v.rep():
        return True
    if x.classes <= it.kinds.nums:
        return False
    return BoolV(("contains", x.term(), uid))


@m("has")
def m_has(it, x, a, k):
    return has(it, x, arg(a, k, 0, "cls"))


def has(it, x, c):
    x = x.rep()
    if not isinstance(c, Class):
        return BoolV(("has", repr(x.term_or_none() or id(x)), repr(c)))
    below = it.kinds.sub(c)
    if x.classes <= below and x.classes:
        return True
    if c.name == "Any_":
        t = x.term_or_none()
        return t is not None and any(u[0] == "a" and u[1] in it.anys for u in T.subterms(t)) if getattr(it, "anys", None) else False
    if x.classes <= it.kinds.nums and not (x.classes & below):
        return False
    if x.exact is not None and not it.kinds.fields[x.exact] and not (x.classes & below):
        return False
    for u in T.subterms(x.term()):
        if u[0] == "fn" and u[1] in {k.name for k in below}:
            return True
        if u[0] == "c" and {"pi": "Pi", "e": "E"}.get(u[1]) in {k.name for k in below}:
            return True
    r = it.decide(BoolV(("has", x.term(), c.name)))
    if not r and x.classes & below:
        it.refine(x, x.classes - below)
    return r


@m("expandable")
def m_expandable(it, x, a, k):
    x = x.rep()
    if x.classes and all(not it.kinds.fields[c] or c.name in ("Rat", "Float", "Symbol") for c in x.classes):
        return False
    return BoolV(("expandable", id(x) if x.term_or_none() is None else x.term()))


@m("symbols")
def m_symbols(it, x, a, k):
    x = x.rep()
    key = x.term_or_none() or id(x)
    if key in it.symlists:
        return PList(it.symlists[key])
    if x.classes <= it.kinds.nums:
        return PList([])
    if x.exact is not None and x.exact.name == "Symbol":
        return PList([x])
    n = it.choose(3, "number of symbols")
    if n == 0:
        for v in list(it.world.var_uids):
            it.world.assume_contains(x.term(), v, False)
        x.notes["const"] = True
        r = []
    else:
        r = [it.world.symbol(f"s{i}") for i in range(n)]
        if n == 1 and x.term_or_none() is not None:
            pass
    it.symlists[key] = r
    return PList(r)


@m("__repr__")
def m_repr(it, x, a, k):
    return it.to_str(x, True)


@m("__str__")
def m_str(it, x, a, k):
    return it.to_str(x)


@m("latex")
def m_latex(it, x, a, k):
    return StrV([("latex", x.rep())])


DUNDER = {"__add__": ("Add", 0), "__radd__": ("Add", 1), "__sub__": ("Sub", 0), "__rsub__": ("Sub", 1), "__mul__": ("Mult", 0), "__rmul__": ("Mult", 1), "__truediv__": ("Div", 0),
          "__rtruediv__": ("Div", 1), "__pow__": ("Pow", 0), "__rpow__": ("Pow", 1), "__floordiv__": ("FloorDiv", 0), "__rfloordiv__": ("FloorDiv", 1), "__mod__": ("Mod", 0), "__rmod__": ("Mod", 1),
          "__div__": ("Div", 0), "__rdiv__": ("Div", 1)}
for n_, (op_, rev_) in DUNDER.items():

    def _mk(name, op, rev):
        import ast

        @m(name)
        def f(it, x, a, k):
            return it.binop(getattr(ast, op), a[0] if rev else x, x if rev else a[0])

    _mk(n_, op_, rev_)


@m("__neg__")
def m_neg(it, x, a, k):
    return it.op_neg(x)


@m("__abs__")
def m_abs(it, x, a, k):
    return absval(it, x)


def absval(it, x):
    x = x.rep()
    R = it.kinds.by_name.get("Rat")
    if x.exact is R:
        v = it.num_value(x)
        from .builtins_ import b_abs

        return it.world.rat(b_abs(it, [v], {}))
    return it.world.built(T.fn("abs", x.term()))


@m("reciprocal")
def m_recip(it, x, a, k):
    x = x.rep()
    R = it.kinds.by_name.get("Rat")
    if R in x.classes and x.exact is not R:
        it.refine(x, {R} | (x.classes & it.kinds.set("Infinity", "NegInfinity")))
    if x.exact is R:
        v = it.num_value(x)
        if isinstance(v, HOSTNUM):
            if v == 0:
                raise Raised("ZeroDivisionError", ())
            return it.world.rat(1 / Fraction(v))
        return it.world.rat(it.mknum(T.div(T.ONE, v.t), "frac", v.taint))
    return it.world.built(T.div(T.ONE, x.term()))


@m("__eq__")
def m_eq(it, x, a, k):
    return it.equal(x, a[0])


def a_positive(it, x):
    """The private marker for expressions known to be positive."""
    x = x.rep()
    if "_strictly_positive" in x.f:
        return x.f["_strictly_positive"]
    if x.fresh:
        return NotImplemented
    r = it.choose(2, "_strictly_positive") == 1
    if r:
        it.world.fact("lt", (T.ZERO, x.term()), True)
    x.f["_strictly_positive"] = r
    return r


# ------------------------------------------------------------------ functions
def f_sqrt(it, a, k):
    x = it.castv(arg(a, k, 0, "x"))
    if x is None:
        return Opaque("sqrt")
    return it.world.built(T.pow_(x.term(), T.q(Fraction(1, 2))))


def f_diff(it, a, k):
    x, v = it.castv(arg(a, k, 0, "expr")), arg(a, k, 1, "var")
    if x is None:
        return Opaque("diff")
    return diff(it, x, v)


def f_same(it, a, k):
    x = it.castv(a[0]) if a else None
    if x is None:
        return NotImplemented
    return it.world.built(x.term())


def f_contains_cls(it, a, k):
    root = getattr(it, "root", None)
    if not isinstance(a[0], ExprV) or root is not None and a[0].rep() is root.rep():
        return NotImplemented
    return has(it, a[0], a[1])


def f_positive(it, a, k):
    x = it.castv(a[0])
    r = it.decide(BoolV(("positive", x.term())))
    if r:
        it.world.fact("lt", (x.term(), T.ZERO), False)
    return r


def f_count(it, a, k):
    return Opaque("count")


def f_get_anys(it, a, k):
    return PList([])


def f_nesting(it, a, k):
    return Opaque("nesting")


def install(it):
    C = it.contracts
    inl = getattr(it.spec, "inline", frozenset())
    for n in ("Sum", "Prod"):
        C[("construct", n)] = c_assoc(n)
    C[("construct", "Power")] = c_power
    C[("construct", "log")] = c_log
    for n in list(it.kinds.TRIG) + ["Abs"]:
        C[("construct", n)] = c_fn(n)
    C[("construct", "Rat")] = c_rat
    C[("construct", "Symbol")] = c_symbol
    for n, f in ATTRS.items():
        C[("attr", n)] = f
    C[("op", "abs")] = absval
    C[("attr", "_strictly_positive")] = a_positive
    C[("name", "sqrt")] = f_sqrt
    C[("name", "diff")] = f_diff
    for n in ("expand_logs", "simplify", "trig_simplify_", "pythagorean_simplification", "product_to_sum_", "reciprocate_trigs"):
        C[("name", n)] = f_same
    C[("name", "contains_cls")] = f_contains_cls
    C[("name", "_is_strictly_positive")] = f_positive
    C[("name", "count")] = f_count
    C[("name", "count_symbols")] = f_count
    C[("name", "general_count")] = f_count
    C[("name", "get_anys")] = f_get_anys
    C[("name", "nesting")] = f_nesting
    if getattr(it.spec, "extra", None):
        it.spec.extra(it)
    for key in list(C):
        if key[1] in inl or key in inl:
            del C[key]
