"""C10: every simplification rule returns an expression of the same value."""
from fractions import Fraction

from ..model import get_model
from ..vflow import engine, match, rules
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.shapes import One, mk
from ..vflow.values import ExprV, PList

NAMES = ("simplify", "trig_simplify", "expand_logs", "pythagorean_simplification", "reciprocate_trigs", "product_to_sum", "product_to_sum_unit", "sectan",
         "rewrite_as_one_fraction", "_log_perform", "_pythagorean_perform", "_pythagorean_complex_perform", "_reciprocate_trigs", "_combine_trigs", "_product_to_sum_unit", "_product_to_sum", "_perform_on_terms")


TRIG2 = One(("Power", ("sin", "x"), 2), ("Power", ("cos", "x"), 2), ("Power", ("sin", "y"), 2), ("Power", ("cos", "y"), 2))
SQ = ("Prod", TRIG2, TRIG2)
SC = One(("sin", "X"), ("cos", "Y"), ("Power", ("sin", "X"), One(2, 3, 4)), ("Power", ("cos", "Y"), One(2, 3, 4)))
SHAPES = {
    "_pythagorean_perform": [("Sum", SQ, SQ), ("Sum", SQ, SQ, SQ), ("Sum", ("Prod", "A", TRIG2), ("Prod", One("A", "B"), TRIG2), One(TRIG2, "C")),
                              ("Sum", TRIG2, TRIG2, "A", "B"),
                              ("Sum", ("Prod", ("Power", ("sin", "x"), 2), One(("cos", "x"), ("sin", "x"))), ("Prod", ("Power", ("cos", "x"), 2), One(("sin", "x"), ("cos", "x"), ("cos", "y"))))],
    "_product_to_sum_unit": [("Prod", SC, SC), ("Prod", SC, SC, One(("sin", "Z"), ("Power", ("cos", "Z"), 2))), ("Prod", "A", SC, SC), ("Power", One(("sin", "X"), ("cos", "X")), One(2, 3, 4, 5))],
    "sectan": [("Sum", ("Prod", One(3, "A"), ("Power", ("sec", "x"), One(2, 4))), ("Power", ("tan", One("x", "y")), One(2, 4)), One("B", ("sec", "x"), 1)),
               ("Sum", ("Power", ("sec", "x"), 2), ("Prod", One(-1, "A"), ("Power", ("tan", "x"), 2)), "B", "C")],
    "rewrite_as_one_fraction": [("Sum", ("Prod", "A", ("Power", "B", One(-1, -2))), One(("Power", One("B", "C"), One(-1, -2)), "D", ("Prod", Fraction(1, 2), "E", ("Power", One("B", "F"), -1)))),
                               ("Sum", ("Prod", Fraction(1, 2), "A"), One("B", ("Prod", Fraction(1, 3), "A", "C")), ("Prod", "D", ("Power", One("C", "E"), -1)))],
}


def total(it, r):
    """What a rule's result stands for: an expression, (expression, flag), or the list of the terms of a sum."""
    if isinstance(r, tuple) and r:
        r = r[0]
    if isinstance(r, PList):
        return T.add(*[it.castv(v).term() for v in r.items])
    return r if isinstance(r, ExprV) else None


def entries():
    m, K = get_model(), kinds()
    out = []

    def where(n):
        return [f for f in m.funcs if f.cls is None and f.parent is None and f.name == n]

    def entry(name, f, go, **kw):
        kw.setdefault("paths", 600)
        kw.setdefault("secs", 10)
        out.append(Entry(name, go, f, "identity", negative=0.15, extra=rules.install, **kw))

    for n in NAMES:
        for f in where(n):
            pars = [a.arg for a in f.node.args.args]
            kwo = [a.arg for a in f.node.args.kwonlyargs]
            if n == "_product_to_sum":
                for mult in (False, True):
                    def gol(it, f=f, mult=mult):
                        xs = [it.world.atom(label=f"t{i}") for i in range(2)]
                        y = it.world.atom(label="multiplier")
                        r = it.call(it.func_value(f), [PList(xs)], {"multiplier": y} if mult else {})
                        t = T.add(*[x.term() for x in xs])
                        a = total(it, r)
                        return [Claim(T.mul(t, y.term()) if mult else t, a)] if a is not None else []

                    entry(f"{n}{' with a multiplier' if mult else ''}", f, gol)
                continue
            if n == "_perform_on_terms":
                for mult in (False, True):
                    def gop(it, f=f, mult=mult):
                        xs = [it.world.atom(label=f"t{i}") for i in range(2)]
                        y = it.world.atom(label="multiplier")
                        r = it.call(it.func_value(f), xs, {"multiplier": y} if mult else {})
                        a = total(it, r)
                        return [Claim(T.mul(*[x.term() for x in xs], *([y.term()] if mult else [])), a)] if a is not None else []

                    entry(f"{n}{' with a multiplier' if mult else ''}", f, gop)
                continue
            for mult in (False, True) if "multiplier" in kwo else (False,):
                def go(it, f=f, mult=mult):
                    x = it.world.atom(label="e")
                    y = it.world.atom(label="multiplier")
                    r = it.call(it.func_value(f), [x], {"multiplier": y} if mult else {})
                    a = total(it, r)
                    return [Claim(T.mul(x.term(), y.term()) if mult else x.term(), a)] if a is not None else []

                entry(f"{n}{' with a multiplier' if mult else ''}", f, go)
    for n, shapes in SHAPES.items():
        for f in where(n):
            for i, sh in enumerate(shapes):
                def gosh(it, f=f, sh=sh):
                    x = mk(it, sh)
                    r = it.call(it.func_value(f), [x], {})
                    a = total(it, r)
                    return [Claim(x.term(), a)] if a is not None else []

                entry(f"{n} on shape {i + 1}", f, gosh, canonical=True, paths=1500, secs=20)
    for c in sorted(K.universe, key=lambda c: c.name)[:1]:
        l = c.lookup("simplify")
        if l and l[1][0] == "func":
            def gos(it, l=l):
                x = it.world.atom(label="e")
                return [Claim(x.term(), it.call(it.bind(it.member(l[0], "simplify"), x, l[0]), [], {}))]

            entry("Expr.simplify", l[1][1], gos)
    return out + match.entries()


def run(rep):
    return engine.check(
        rep, entries, 4,
        "Every simplification entry point and every rule handed to a tree walker is interpreted abstractly on an arbitrary expression: whenever it returns an expression, that expression's value number is compared with the argument's. "
        "Pattern matches are taken to mean expr = factor * pattern + rest, and the pattern comparison itself is interpreted on sums, products and powers around the patterns in use to show just that; tree walkers are assumed to apply the rule to sub-expressions only (the obligation of C08).",
        "a simplification rule returns an expression of the same value")
