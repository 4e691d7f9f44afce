"""C06: rational arithmetic is exact."""
import copy
import math
from fractions import Fraction as Q

from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.values import Done, ExprV, NumV, PList, as_term

SKIP = ("evalf",)


def exactly(e):
    """The obligation `e` explored with whole numbers and fractions only; judged: no number is rounded."""
    n = copy.copy(e)
    n.name, n.rule, n.no_side = f"exact numbers in {e.name}", "exact numbers", True

    def go(it, inner=e.go):
        it.world.exact = True
        inner(it)
        if not it.world.rounded:
            return [Claim(T.ONE, T.ONE, "no rounding")]
        out = []
        for what, f in it.world.rounded[:2]:
            w = f"{f.short}: {what}" if f is not None else what
            out.append(Claim(T.ONE, T.ZERO, f"in {f.short if f is not None else '?'}", loc=f.loc(f.node) if f is not None else None, note=f" {w}"))
        return out

    n.go = go
    return n


def entries():
    K = kinds()
    K.universe = K.universe - K.set("Float")
    from . import c05, c07, c08, c09, c10, c14, c22, c23, c24

    out = []
    for mod in (c05, c07, c08, c09, c10, c14, c22, c23, c24):
        for e in mod.entries():
            if not any(s in e.name for s in SKIP):
                out.append(exactly(e))
    out += own()
    return out


def own():
    """The places where Python numbers become numbers of expressions, and helpers on whole numbers."""
    m, K = get_model(), kinds()
    out = []
    R = K.by_name["Rat"]

    def result(it, r, t, f):
        if it.world.rounded:
            what, g = it.world.rounded[0]
            return [Claim(T.ONE, T.ZERO, f"in {g.short if g is not None else '?'}", loc=(g or f).loc((g or f).node), note=f" {what}")]
        if isinstance(r, ExprV):
            x = r.rep()
            if x.exact is not R:
                return [Claim(T.ONE, T.ZERO, "the result is a rational", loc=f.loc(f.node))]
            r = it.field(x, "value")
        ok = (isinstance(r, (int, Q)) or isinstance(r, NumV) and not r.taint and r.kind != "float") and not isinstance(r, bool)
        return [Claim(T.ONE, T.ONE if ok else T.ZERO, "the value is exact", loc=f.loc(f.node), note="" if ok else f" {getattr(r, 'taint', None) or 'a float'}"), Claim(t, r, "value", loc=f.loc(f.node))]

    def add(name, f, make):
        def go(it):
            it.world.exact = True
            return make(it)

        out.append(Entry(name, go, f, "exact numbers", paths=200, max_rec=6, inline=frozenset([("func", f.short), ("construct", "Rat"), ("construct", "Float"), ("name", "Const"), ("name", "_cast")]), no_side=True))

    samples = [0, 1, -1, 7, 10**30 + 1, -(10**30) - 1, Q(1, 3), Q(-7, 2), Q(10**30 + 1, 10**20 + 7)]
    for f in m.funcs:
        if f.cls is None and f.parent is None and f.name in ("Const", "_cast"):
            for kind in ("int", "frac"):
                def conv(it, f=f, kind=kind):
                    n = it.world.number(kind, "n")
                    return result(it, it.call(it.func_value(f), [n], {}), n.t, f)

                add(f"{f.name}({kind} n)", f, conv)
            for v in samples:
                def convs(it, f=f, v=v):
                    return result(it, it.call(it.func_value(f), [v], {}), T.q(v), f)

                add(f"{f.name}({v})", f, convs)
        if f.cls is None and f.parent is None and f.name == "multinomial_coefficient":
            for xs in ((1, 2), (3, 4, 5), (20, 20), (15, 15, 15), (30, 31)):
                def multi(it, f=f, xs=xs):
                    n = sum(xs)
                    want = math.factorial(n)
                    for x in xs:
                        want //= math.factorial(x)
                    return result(it, it.call(it.func_value(f), [PList(list(xs)), n], {}), T.q(want), f)

                add(f"multinomial coefficient of {xs}", f, multi)
    l = R.lookup("__init__")
    f = l[1][1] if l and l[1][0] == "func" else None
    if f is not None:
        def rat1(it, kind):
            n = it.world.number(kind, "n")
            return result(it, it.construct(R, [n], {}, inline=True), n.t, f)

        def rat2(it, v=None, w=None):
            a, b = (it.world.number("int", "n"), it.world.number("int", "d")) if v is None else (v, w)
            if v is None and it.truth(it.cmp_terms("==", b.t, T.ZERO)):
                raise Done()
            return result(it, it.construct(R, [a, b], {}, inline=True), T.div(as_term(a), as_term(b)), f)

        add("Rat(int n)", f, lambda it: rat1(it, "int"))
        add("Rat(fraction n)", f, lambda it: rat1(it, "frac"))
        add("Rat(int n, int d)", f, rat2)
        for v in samples:
            add(f"Rat({v})", f, lambda it, v=v: result(it, it.construct(R, [v], {}, inline=True), T.q(v), f))
        for v, w in ((1, 3), (-7, 2), (10**30 + 1, 3), (3, 10**30 + 1), (10**20 + 1, 10**19 + 7)):
            add(f"Rat({v}, {w})", f, lambda it, v=v, w=w: rat2(it, v, w))

    # whole and fractional powers of large numbers
    P = K.by_name["Power"]
    l = P.lookup("__new__")
    g = l[1][1] if l and l[1][0] == "func" else None
    big = 10**25 + 7
    for b, x, want in ((4, Q(1, 2), 2), (big**2, Q(1, 2), big), (big**3, Q(2, 3), big**2), (Q(big**2, 9), Q(-1, 2), Q(3, big)), (big**5, Q(1, 5), big), (2, 100, 2**100), (Q(2, 3), -40, Q(3**40, 2**40)), (-3, 41, -(3**41))):
        def power(it, b=b, x=x, want=want):
            return result(it, it.construct(P, [it.world.rat(Q(b)), it.world.rat(Q(x))], {}, inline=True), T.q(want), g)

        out.append(Entry(f"{b}^{x}"[:60], lambda it, power=power: (setattr(it.world, "exact", True), power(it))[1], g, "exact numbers", paths=40, max_rec=8, k_list=(2,), max_steps=400000, no_side=True, inline=frozenset([("construct", "Power"), ("construct", "Prod")])))
    return out


def run(rep):
    return engine.check(
        rep, entries, 100,
        "The obligations of the operator, derivative, substitution, trigonometric, simplification, power, polynomial, expansion and definite-integral checks are explored again with whole numbers and fractions as the only numbers; "
        "every number carries whether it passed through floating point (a true division or power of integers, float(), math functions, rounding); no rational may be built of such a number and no Float may appear.",
        "numbers built from exact numbers are exact")
