"""C05: operators and numbers. Each operator method's result must be the operation on its operands' values."""
from fractions import Fraction

from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.values import BoolV, ExprV, NumV

BIN = {
    "__add__": lambda a, b: T.add(a, b), "__radd__": lambda a, b: T.add(b, a),
    "__sub__": lambda a, b: T.sub(a, b), "__rsub__": lambda a, b: T.sub(b, a),
    "__mul__": lambda a, b: T.mul(a, b), "__rmul__": lambda a, b: T.mul(b, a),
    "__truediv__": lambda a, b: T.div(a, b), "__rtruediv__": lambda a, b: T.div(b, a),
    "__div__": lambda a, b: T.div(a, b), "__rdiv__": lambda a, b: T.div(b, a),
    "__pow__": lambda a, b: T.pow_(a, b), "__rpow__": lambda a, b: T.pow_(b, a),
    "__floordiv__": lambda a, b: ("fdiv", a, b), "__rfloordiv__": lambda a, b: ("fdiv", b, a),
    "__mod__": lambda a, b: ("mod", a, b), "__rmod__": lambda a, b: ("mod", b, a),
}
UN = {"__neg__": T.neg, "__abs__": lambda a: T.fn("abs", a), "abs": lambda a: T.fn("abs", a), "reciprocal": lambda a: T.div(T.ONE, a)}
CMP = {"__lt__": lambda a, b: ("lt", a, b), "__gt__": lambda a, b: ("lt", b, a), "__le__": lambda a, b: ("not", ("lt", b, a)), "__ge__": lambda a, b: ("not", ("lt", a, b)), "__eq__": lambda a, b: ("eqv", a, b)}
RATPROP = {"numerator": lambda a: ("numer", a), "denominator": lambda a: ("denom", a)}


def truth_claim(it, cond, r):
    return [Claim(cond, T.q(1 if it.truth(r) else 0))]


def entries():
    m, K = get_model(), kinds()
    nums = K.nums & K.universe
    R = K.by_name.get("Rat")
    out = []
    groups = {}

    def owner(c, n):
        l = c.lookup(n)
        return l if l and l[1][0] == "func" else None

    # one obligation per (method implementation, kind of other operand)
    for n, op in {**BIN, **CMP}.items():
        impl = {}
        for c in sorted(K.universe, key=lambda c: c.name):
            if n in CMP and c not in nums:
                continue
            l = owner(c, n)
            if l:
                impl.setdefault((l[0], l[1][1]), set()).add(c)
        for (o, f), cs in sorted(impl.items(), key=lambda p: p[0][0].name):
            for oname in ("expression", "int", "frac", "float"):

                def go(it, n=n, op=op, o=o, cs=cs, oname=oname):
                    x = it.world.atom(frozenset(cs), "self")
                    if oname == "expression":
                        y = it.world.atom(label="other") if n not in CMP else it.world.atom(nums, "other")
                        ty = y.term()
                    else:
                        y = it.world.number(oname, "other")
                        ty = y.t
                    if len(x.classes) > 1 and any(K.fields[c] == ("value",) or c in nums for c in x.classes):
                        it.exact_class(x)
                    r = it.call(it.bind(it.member(o, n), x, x.exact or o), [y], {})
                    if r is NotImplemented:
                        return []
                    if n in CMP:
                        out = truth_claim(it, op(x.term(), ty), r)
                        exact = x.exact is R and (oname in ("int", "frac") or isinstance(y, ExprV) and y.exact is R)
                        if exact and it.world.rounded_cmps:
                            what, g = it.world.rounded_cmps[0]
                            out = list(out) + [Claim(T.ONE, T.ZERO, "exact numbers are compared exactly", loc=g.loc(g.node) if g else None, note=f" {what}")]
                        return out
                    return [Claim(op(x.term(), ty), r)]

            # each operand kind separately
                out.append(Entry(f"{o.name}.{n} with {oname}", go, f, "operator", paths=200, secs=5, negative=0.3))
    for n, op in UN.items():
        impl = {}
        for c in sorted(K.universe, key=lambda c: c.name):
            l = owner(c, n)
            if l:
                impl.setdefault((l[0], l[1][1]), set()).add(c)
        for (o, f), cs in sorted(impl.items(), key=lambda p: p[0][0].name):

            def go1(it, n=n, op=op, o=o, cs=cs):
                x = it.world.atom(frozenset(cs), "self")
                if cs & nums:
                    it.exact_class(x)
                r = it.call(it.bind(it.member(o, n), x, x.exact or o), [], {})
                return [Claim(op(x.term()), r)]

            out.append(Entry(f"{o.name}.{n}", go1, f, "operator", paths=200, secs=5, negative=0.3))

    def prop(c, n, cond=None, value=None, entry=None):
        l = owner(c, n)
        if not l:
            return

        def go(it):
            x = it.world.atom(frozenset([c]), "self")
            r = it.bind(it.member(l[0], n), x, c)
            if cond is not None:
                return truth_claim(it, cond(x.term()), r)
            return [Claim(value(x.term()), r)]

        out.append(Entry(f"{c.name}.{n}", go, l[1][1], "number property", paths=60))

    for c in sorted(nums, key=lambda c: c.name):
        prop(c, "is_subtraction", cond=lambda t: ("lt", t, T.ZERO))
        prop(c, "sign", value=lambda t: ("sign", t))
        if c.name in ("Rat", "Float"):
            prop(c, "is_int", cond=lambda t: ("eqv", ("floor", t), t))
        if c.name == "Rat":
            for n, v in RATPROP.items():
                prop(c, n, value=v)
    # the infinities: their terms are no real numbers, so the kind of the result is compared
    INF, NINF = K.by_name.get("Infinity"), K.by_name.get("NegInfinity")
    if INF is not None and NINF is not None:
        def inf_entry(c, n, want, other=None, oname=""):
            l = owner(c, n)
            if not l:
                return

            def goi(it):
                x = it.construct(c, [], {})
                args = [other(it)] if other else []
                f = it.bind(it.member(l[0], n), x, c)
                r = it.call(f, args, {}) if "property" not in l[1][1].dec_names() else f
                if isinstance(want, bool):
                    ok = it.truth(r) == want
                elif isinstance(want, int):
                    return [Claim(T.q(want), r)]
                else:
                    ok = isinstance(r, ExprV) and r.rep().exact is not None and r.rep().exact is want
                return [Claim(T.ONE, T.ONE if ok else T.ZERO, "is as required")]

            out.append(Entry(f"{c.name}.{n}{oname}", goi, l[1][1], "operator", paths=60))

        finite = lambda it: it.world.atom(K.set("Rat", "Float"), "other")
        for c, neg, sg in ((INF, NINF, 1), (NINF, INF, -1)):
            inf_entry(c, "__neg__", neg)
            inf_entry(c, "__abs__", INF)
            inf_entry(c, "reciprocal", 0)
            inf_entry(c, "sign", sg)
            inf_entry(c, "is_subtraction", sg < 0)
            inf_entry(c, "is_int", False)
            for n, w in (("__gt__", sg > 0), ("__ge__", sg > 0), ("__lt__", sg < 0), ("__le__", sg < 0), ("__eq__", False)):
                inf_entry(c, n, w, finite, " with a finite number")
            for d, sd in ((INF, 1), (NINF, -1)):
                for n, w in (("__gt__", sg > sd), ("__ge__", sg >= sd), ("__lt__", sg < sd), ("__le__", sg <= sd), ("__eq__", sg == sd)):
                    inf_entry(c, n, w, lambda it, d=d: it.construct(d, [], {}), f" with {d.name}")
    # construction of numbers
    R = K.by_name.get("Rat")
    for kind, den in (("int", None), ("frac", None), ("int", "int")):

        def gor(it, kind=kind, den=den):
            a = it.world.number(kind, "value")
            args = [a]
            exp = a.t
            if den:
                d = it.world.number(den, "denom")
                args.append(d)
                exp = T.div(a.t, d.t)
            return [Claim(exp, it.construct(R, args, {}, inline=True))]

        out.append(Entry(f"Rat({kind}{', ' + den if den else ''})", gor, R.lookup("__init__")[1][1] if R.lookup("__init__") else None, "number construction", inline=frozenset([("construct", "Rat")])))
    for f in m.funcs:
        if f.cls is None and f.parent is None and f.name in ("Const", "_cast"):
            for kind in ("int", "frac", "float"):

                def goc(it, f=f, kind=kind):
                    a = it.world.number(kind, "value")
                    return [Claim(a.t, it.call(it.func_value(f), [a], {}))]

                out.append(Entry(f"{f.name}({kind})", goc, f, "number construction"))
        if f.cls is None and f.parent is None and f.name == "accumulate":
            for typ in ("sum", "prod"):
                for k in (1, 2, 3):

                    def goa(it, f=f, typ=typ, k=k):
                        xs = [it.world.atom(K.set("Rat", "Float"), f"c{i}") for i in range(k)]
                        r = it.call(it.func_value(f), list(xs), {"type_": typ} if typ == "prod" else {})
                        ts = [x.term() for x in xs]
                        return [Claim(T.add(*ts) if typ == "sum" else T.mul(*ts), r)]

                    out.append(Entry(f"accumulate({typ}, {k})", goa, f, "number construction", negative=0.3))
    return out


def run(rep):
    return engine.check(
        rep, entries, 40,
        "Every operator method (+ - * / ** // % unary, comparisons, bool-valued and numeric properties) of every kind of number and expression, direct and reflected, with every operand kind and with plain Python int/Fraction/float operands, plus the number constructors and accumulate, is interpreted abstractly; each path's result is compared with the arithmetic operation on the operands' value numbers.",
        "an operator denotes the arithmetic operation on the values of its operands, whichever operand order or operand kind")
