"""C23: polynomial recognition and its inverse agree; a 2x2 matrix times its inverse is the identity."""
from fractions import Fraction

from ..model import get_model
from ..vflow import engine, steps
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.shapes import One, mk
from ..vflow.values import Arr, Native, PList, Raised, Undecided, as_term


def R(n):
    return ("rat", n)


def P(b, e):
    return ("Power", b, e)


POLY = [
    "x", 0, 3, R("a"), "y", ("const", "A"),
    P("x", One(2, 3, 5)), ("Prod", R("a"), "x"), ("Prod", R("a"), P("x", One(2, 4))),
    ("Sum", "x", R("a")), ("Sum", R("a"), "x"), ("Sum", P("x", 3), "x"), ("Sum", P("x", 2), R("b"), ("Prod", R("a"), "x")),
    ("Sum", ("Prod", R("a"), P("x", 4)), ("Prod", R("b"), P("x", 2)), 7), ("Sum", ("Prod", R("a"), "x"), "y", ("const", "A")),
    ("Sum", "x", "y", R("a")), ("Sum", P("x", One(2, 3)), ("Prod", R("a"), "x"), ("Prod", R("b"), P("x", 5)), R("c")),
    ("Sum", ("sin", "y"), P("x", 2)), ("Sum", R("a"), ("const", "A"), ("Prod", R("b"), "x")),
]
OTHER = [
    (One("sin", "cos", "tan", "log", "Abs", "atan", "asin"), "x"), P("x", One(-1, -2, Fraction(1, 2), Fraction(-3, 2), Fraction(5, 2))), P(2, "x"), P("x", "x"),
    P(("sin", "x"), 2), P("x", "y"), P("y", "x"), ("Sum", P("x", 2), P("x", -1)), ("Sum", R("a"), ("sin", "x")), ("Prod", R("a"), P("x", One(-1, Fraction(1, 2)))),
    ("Prod", 2, ("cos", "x")), ("Sum", "x", P(2, "x"), 1), ("Prod", "x", ("sin", "x")), ("Prod", 3, "x", ("sin", "x")), ("Sum", ("Prod", R("a"), P("x", -2)), "x"),
]


BUGS = ("AttributeError", "TypeError", "NameError", "UnboundLocalError", "IndexError", "KeyError", "ZeroDivisionError", "RecursionError")


def entries():
    m = get_model()
    fs = {f.name: f for f in m.funcs if f.cls is None and f.parent is None and f.module.name.endswith((".polynomial", ".linalg"))}
    out = []

    def entry(name, go, f, rule, **kw):
        kw.setdefault("paths", 300)
        kw.setdefault("secs", 6)
        kw.setdefault("max_rec", 8)
        kw.setdefault("max_rec_nested", 8)
        kw.setdefault("inline", frozenset([("name", n) for n in fs]))
        out.append(Entry(name, go, f, rule, structured=True, extra=install, **kw))

    def install(it):
        steps.install(it)
        for n in fs:
            it.contracts.pop(("name", n), None)
        it.expanded = {}
        it.contracts[("attr", "expandable")] = lambda it, x: Native("expandable", lambda i, a, k: x.rep().uid in i.expanded)
        it.contracts[("attr", "expand")] = lambda it, x: Native("expand", lambda i, a, k: i.expanded.get(x.rep().uid, x))

    def var(it):
        x = mk(it, "x")
        it.world.var(x.uid)
        it.step_var = x
        return x

    def value(items, x):
        return T.add(*[T.mul(as_term(c), *[x.term()] * i) for i, c in enumerate(items)])

    f = fs.get("to_const_polynomial")
    if f:
        def recognise(it, x, e):
            r = it.call(it.func_value(f), [e, x], {})
            if not isinstance(r, PList):
                raise Undecided("not an array")
            items = list(r.items)
            out = [Claim(e.term(), value(items, x), "coefficients reassembled")]
            for c in items:
                out.append(Claim(T.ZERO, ("D", as_term(c), x.term()), "change of a coefficient with the variable"))
            return out

        def goa(it):
            x = var(it)
            e = it.world.atom(it.kinds.universe - it.kinds.set("Sum", "Prod"), "e")
            return recognise(it, x, e)

        entry("to_const_polynomial of any single term", goa, f, "coefficients")
        for i, sh in enumerate(POLY):
            def gop(it, sh=sh):
                x = var(it)
                e = mk(it, sh)
                try:
                    return recognise(it, x, e)
                except Raised as r:
                    return [Claim(T.ONE, T.ZERO, f"a polynomial is refused ({r.exc})", loc=f.loc(f.node))]

            entry(f"to_const_polynomial of polynomial {i + 1}", gop, f, "coefficients")
        for i, sh in enumerate(POLY[-6:]):
            def gox(it, sh=sh):
                x = var(it)
                p = mk(it, sh)
                e = it.world.atom(it.kinds.set("Prod", "Sum"), "e")
                it.world.binds[e.uid] = p.term()
                it.expanded[e.uid] = p
                try:
                    return recognise(it, x, e)
                except Raised as r:
                    return [Claim(T.ONE, T.ZERO, f"a polynomial is refused before it is expanded ({r.exc})", loc=f.loc(f.node))]

            entry(f"to_const_polynomial of what expands to polynomial {len(POLY) - 5 + i}", gox, f, "coefficients")
        for i, sh in enumerate(OTHER):
            def gon(it, sh=sh):
                x = var(it)
                e = mk(it, sh)
                try:
                    r = it.call(it.func_value(f), [e, x], {})
                except Raised as r:
                    return [Claim(T.ONE, T.ZERO if r.exc in BUGS else T.ONE, "refusal of what is not a polynomial", loc=f.loc(f.node))]
                return [Claim(T.ONE, T.ZERO, "what is not a polynomial is accepted", loc=f.loc(f.node))]

            entry(f"to_const_polynomial of non-polynomial {i + 1}", gon, f, "refusal")
    g = fs.get("is_polynomial")
    if g:
        for want, shapes in ((True, POLY), (False, OTHER)):
            for i, sh in enumerate(shapes):
                def goi(it, sh=sh, want=want):
                    x = var(it)
                    e = mk(it, sh)
                    try:
                        r = it.truth(it.call(it.func_value(g), [e, x], {}))
                    except Raised as err:
                        return [Claim(T.ONE, T.ZERO, f"no answer ({err.exc})", loc=g.loc(g.node))]
                    return [Claim(T.ONE, T.ONE if bool(r) == want else T.ZERO, "answer", loc=g.loc(g.node))]

                entry(f"is_polynomial of {'' if want else 'non-'}polynomial {i + 1}", goi, g, "refusal")
    h = fs.get("polynomial_to_expr")
    if h:
        for k in range(5):
            def goe(it, k=k):
                x = var(it)
                cs = [it.world.rat(it.world.number("frac", f"c{i}")) if (i + k) % 2 else mk(it, ("const", "ABCDE"[i])) for i in range(k)]
                return [Claim(value(cs, x), it.call(it.func_value(h), [Arr(cs), x], {}))]

            entry(f"polynomial_to_expr of {k} coefficients", goe, h, "reassembly")
    z = fs.get("rid_ending_zeros")
    if z:
        def trimmed(it, cs):
            r = it.call(it.func_value(z), [Arr(cs)], {})
            if not isinstance(r, PList):
                raise Undecided("not an array")
            rs = list(r.items)
            ok = len(rs) <= len(cs) and all(as_term(a) == as_term(b) for a, b in zip(rs, cs))
            out = [Claim(T.ONE, T.ONE if ok else T.ZERO, "the result starts like the input", loc=z.loc(z.node))]
            for c in cs[len(rs):]:
                out.append(Claim(T.ZERO, as_term(c), "a trimmed coefficient", loc=z.loc(z.node)))
            if rs:
                out.append(Claim(("not", ("eqv", as_term(rs[-1]), T.ZERO)), T.ONE, "the last coefficient kept is not zero", loc=z.loc(z.node)))
            return out

        for cs in ([], [0], [5], [0, 0], [1, 0], [0, 1], [1, 0, 0], [0, 2, 0], [1, 0, 3], [1, 2, 3], [0, 0, 4, 0, 0], [0, 0, 0]):
            def goz(it, cs=cs):
                return trimmed(it, [it.world.rat(Fraction(c)) for c in cs])

            entry(f"rid_ending_zeros({cs})", goz, z, "trim")
        for k in (1, 2, 3, 4):
            def gozz(it, k=k):
                return trimmed(it, [it.world.rat(it.world.number("frac", f"c{i}")) for i in range(k)])

            entry(f"rid_ending_zeros of {k} unknown fractions", gozz, z, "trim")
    v = fs.get("invert")
    if v:
        def inv(it, a, b, c, d):
            r = it.call(it.func_value(v), [Arr([Arr([a, b]), Arr([c, d])])], {})
            if r is None:
                return None
            if not isinstance(r, PList) or len(r.items) != 2:
                raise Undecided("not a matrix")
            rows = [list(x.items) for x in r.items]
            if any(len(x) != 2 for x in rows):
                raise Undecided("not a matrix")
            M = [[a.term(), b.term()], [c.term(), d.term()]]
            out = []
            for i in range(2):
                for j in range(2):
                    t = T.add(*[T.mul(M[i][n], as_term(rows[n][j])) for n in range(2)])
                    out.append(Claim(T.ONE if i == j else T.ZERO, t, f"matrix times inverse, entry {i}{j}", loc=v.loc(v.node)))
            return out

        def gov(it):
            x = [it.world.rat(it.world.number("frac", n)) for n in "abcd"]
            r = inv(it, *x)
            if r is None:
                return [Claim(T.ZERO, T.sub(T.mul(x[0].term(), x[3].term()), T.mul(x[1].term(), x[2].term())), "determinant of a matrix reported as singular", loc=v.loc(v.node))]
            return r

        entry("invert of unknown fractions", gov, v, "inverse")
        for M in ((1, 2, 3, 4), (0, 1, 1, 0), (1, 0, 0, 1), (2, 3, 0, 5), (0, 2, 3, 5), (1, 1, 1, -1), (0, 0, 0, 0), (1, 2, 2, 4), (0, 0, 1, 2), (3, 0, 5, 0), (2, 0, 7, 3), (1, -1, -1, 1)):
            def gom(it, M=M):
                det = M[0] * M[3] - M[1] * M[2]
                try:
                    r = inv(it, *[it.world.rat(Fraction(n)) for n in M])
                except Raised as e:
                    return [Claim(T.ONE, T.ZERO, f"refused ({e.exc})", loc=v.loc(v.node))]
                if r is None or det == 0:
                    return [Claim(T.ONE, T.ONE if r is None and det == 0 else T.ZERO, "singularity", loc=v.loc(v.node))]
                return r

            entry(f"invert({M})", gom, v, "inverse")
    return out


def run(rep):
    return engine.check(
        rep, entries, 4,
        "Polynomial recognition, reassembly, trimming and 2x2 inversion are interpreted abstractly on arrays and expressions of unknown and of fixed shape: the coefficients must be free of the variable and add up to the expression, "
        "what is not a polynomial must be refused, only zero coefficients may be trimmed, and the product of a matrix with its inverse must be the identity.",
        "coefficients, reassembly, trimming and inverse agree with their definitions")
