"""C11: every step of the integrator leads to an integrand whose solution gives a solution of the original one."""
from fractions import Fraction

from ..model import get_model
from ..vflow import engine, steps
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.shapes import One, mk
from ..vflow.values import Done, ExprV, PList, Raised


def transforms():
    m = get_model()
    base = m.cls("Transform")
    return [c for c in m.subclasses(base) if not m.abstract_members(c) and ".debug" not in c.module.name]


def C(n):
    return ("const", n)


LIN = One(("Sum", ("Prod", C("A"), "x"), C("B")), ("Sum", "x", C("B")), ("Prod", C("A"), "x"))
LINP = ("Prod", One(2, -4, Fraction(1, 9), C("A")), ("Power", "x", One(2, 3, C("N"))))


def fraction(kind):
    def make(it):
        w, K = it.world, it.kinds

        def denominator(it, d):
            d1, d2 = w.atom(K.set("Sum", "Power", "Symbol"), "d1"), w.atom(K.set("Sum", "Power", "Symbol"), "d2")
            p = ExprV(w, K.set("Prod"))
            p.f["terms"] = PList([d1, d2])
            if kind == "Sum":
                w.binds[d.uid] = p.term()
                it.refine(d, K.set("Sum"))
                d.notes["factored"] = p
            else:
                it.refine(d, K.set("Prod"))
                d.f["terms"] = p.f["terms"]

        it.denominator = denominator
        it.poly_may_fail = False
        return w.atom(K.set("Prod"), "e")

    return make


def cubic(it):
    it.max_degree = 3
    return mk(it, One(("Prod", ("Power", "B", -1), "E"), ("Prod", ("Power", "B", Fraction(-1, 2)), "E"), ("Power", "B", -1)))


SHAPES = {
    "CompleteTheSquare": [cubic],
    "LinearUSub": [
        ("Power", LIN, C("N")), (One("sin", "tan"), LIN), ("Prod", ("Power", LIN, C("N")), ("cos", LIN)), ("Power", 3, LIN),
        ("cos", LINP), ("Prod", ("sin", LINP), ("cos", LINP)), ("Prod", ("Power", ("Sum", LINP, 1), C("M")), One(C("C"), ("Power", "x", C("L")))),
    ],
    "PartialFractions": [fraction("Prod"), fraction("Sum")],
    "InverseTrigUSub": [("Power", ("Sum", 1, ("Power", "x", 2)), "N"), ("Power", ("Sum", 1, ("Prod", -1, ("Power", "x", 2))), "N")],
    "GenericUSub": [("Prod", "A", "B"), ("Prod", "A", "B", "C")],
    "PolynomialUSub": [("Prod", ("Power", "x", C("N")), "B"), ("Prod", "x", "B"), ("Prod", "A", ("Power", "x", C("N")), "B")],
    "ByParts": [("log", "x"), ("Prod", "x", "B"), (One("asin", "atan", "acos"), "x")],
}


def leaks(it, s):
    """A solution of the original problem does not vary with a variable introduced on the way."""
    return [Claim(T.ZERO, ("D", s.term(), ("a", u)), "change of the answer with an introduced variable") for u in sorted(it.world.fresh_syms)]


def entries(judge=None):
    m = get_model()
    out = []
    finish = steps.finish if judge is None else lambda it, root, x, e: steps.finish(it, root, x, e) and judge(it, it.final[1])

    def entry(name, go, f=None, **kw):
        kw.setdefault("paths", 500)
        kw.setdefault("secs", 10)
        kw.setdefault("max_rec", 8)
        kw.setdefault("max_rec_nested", 3)
        kw.setdefault("structured", True)
        if judge is not None:
            name, rule = "answer of " + name, "helper variable"
        else:
            rule = "antiderivative"
        kw.setdefault("canonical", any(n in name for n in ("Polynomial", "Partial", "Square")) and "USub" not in name)
        out.append(Entry(name, go, f, rule, extra=steps.install, call_hook=steps.method_hook, builtin_hook=steps.random_hook, construct_hook=steps.fresh_hook, no_side=judge is not None, **kw))

    for c in sorted(transforms(), key=lambda c: c.name):
        l = c.lookup("forward")
        f = l[1][1] if l and l[1][0] == "func" else None

        def go(it, c=c):
            root, x, e = steps.start(it)
            if steps.do_step(it, c, root) is None:
                raise Done()
            return finish(it, root, x, e)

        entry(c.name, go, f)
        for i, sh in enumerate(SHAPES.get(c.name, ())):
            def gos(it, c=c, sh=sh):
                root, x, e = steps.start(it, lambda it: sh(it) if callable(sh) else mk(it, sh))
                if steps.do_step(it, c, root) is None:
                    raise Done()
                return finish(it, root, x, e)

            entry(f"{c.name} on shape {i + 1}", gos, f, max_rec_nested=8)
    T_ = {c.name: c for c in transforms()}

    def chain(names):
        def go(it):
            root, x, e = steps.start(it)
            nodes = [root]
            for n in names:
                ls = [l for r in nodes for l in steps.open_leaves(it, r)][:1]
                try:
                    if not ls or steps.do_step(it, T_[n], ls[0]) is None:
                        raise Done()
                except Raised as r:
                    if r.exc == "ValueError":
                        g = T_[n].lookup("forward")[1][1]
                        return [Claim(T.ONE, T.ZERO, "the step can be taken where its check says so", loc=g.loc(g.node), note=f" {n} raises {r.exc}")]
                    raise
                if it.getattr(ls[0], "type") == "UNSET" and len(steps.children(it, ls[0])) > 1:
                    it.setattr(ls[0], "type", "OR")
            return finish(it, root, x, e)

        return go

    for names in (("ByParts", "ByParts"), ("ByParts", "PullConstant", "ByParts"), ("PullConstant", "ByParts", "ByParts"), ("ByParts", "RewriteTrig", "ByParts"), ("ByParts", "ProductToSum", "ByParts"), ("ByParts", "Expand", "ByParts")):
        if all(n in T_ for n in names):
            entry(" then ".join(names), chain(names), T_[names[-1]].lookup("forward")[1][1])
    if judge is not None:
        return out
    for f in m.funcs:
        if f.cls is None and f.parent is None and f.name == "check_integral_table":
            def got(it, f=f):
                x = it.world.symbol("x")
                it.step_var = x
                it.world.var(x.uid)
                it.world.fact("lt", (x.term(), T.mul(T.q(Fraction(1, 2)), T.PI)), True)
                it.table_lookup = True
                e = it.world.atom(label="e")
                r = it.call(it.func_value(f), [e, x], {})
                return [Claim(e.term(), ("D", r.term(), x.term()), "d(table entry)/dx")] if isinstance(r, ExprV) else []

            entry(f.name, got, f)
    return out


def run(rep):
    return engine.check(
        rep, entries, 4,
        "Each transform of the integrator is interpreted abstractly on an unknown integrand: check, forward, and the backward pass over the solved tree. "
        "The integrands it leads to are taken to have solutions; the derivative of the assembled solution is compared with the original integrand.",
        "d(solution)/d(variable) is the integrand")
