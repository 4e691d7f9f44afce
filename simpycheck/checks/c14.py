"""C14: a definite integral is the antiderivative's difference at the bounds; the variable may be left out only when there is exactly one."""
from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.values import ExprV, PList, Raised, Undecided, as_term


def holds(ok, what, f=None):
    return Claim(T.ONE, T.ONE if ok else T.ZERO, what, loc=f.loc(f.node) if f is not None else None)


def entries():
    m = get_model()
    out = []
    integ = m.cls("Integration")
    indef = integ.lookup("integrate")[1][1]
    public = m.resolve_from(m.pkg, "integrate")
    public = public[1] if public and public[0] == "func" else None
    names = [p.arg for p in indef.node.args.args]

    def search(it, f, a, kw):
        """The search finds an antiderivative of what it is asked for, or nothing."""
        if f.func is not indef:
            return NotImplemented
        args = dict(zip(names, a))
        args.update(kw)
        e, x = args.get(names[1]), args.get(names[2])
        it.asked.append((e, x))
        if it.choose(2, "the search succeeds") == 1:
            it.got.append(None)
            return None
        r = it.world.atom(label=f"F{len(it.got)}")
        it.got.append(r)
        return r

    def entry(name, go, f, **kw):
        out.append(Entry(name, go, f, "definite integral", paths=200, secs=6, max_rec=6, call_hook=search, **kw))

    def judged(it, r, e, x, lo, hi, f):
        """r must be the answer for the integrand e in x (from lo to hi)."""
        if isinstance(r, Raised):
            return [holds(False, f"valid arguments are accepted (raises {r.exc})", f)]
        if not it.got:
            if lo is not None and lo is hi and r is not None:
                return [Claim(T.ZERO, as_term(r), "value between equal bounds")]
            raise Undecided("the search was not asked")
        cl, found = [], []
        for (qe, qx), F in zip(it.asked, it.got):
            cl.append(Claim(as_term(e), as_term(qe), "the integrand that is integrated"))
            cl.append(holds(isinstance(qx, ExprV) and qx.rep() is x.rep(), "the variable of integration", f))
        F = it.got[-1]
        if F is None or r is None:
            return cl + [holds(F is None and r is None, "no value exactly when there is no antiderivative", f)]
        if lo is None:
            want = F.term()
        else:
            want = T.sub(at(F, x, hi), at(F, x, lo))
        return cl + [Claim(want, as_term(r), "value")]

    def at(F, x, v):
        if isinstance(v, ExprV) and v.rep() is x.rep():
            return F.term()
        return ("at", F.term(), ((x.term(), as_term(v)),))

    def attempt(it, call):
        it.asked, it.got = [], []
        try:
            return call()
        except Raised as err:
            return err

    # the bounds, given the antiderivative
    KINDS = ("expressions", "numbers", "the variable and another", "another and the variable", "infinite", "equal")

    def bounds(it, kind, x):
        w = it.world
        lo, hi = w.atom(label="a"), w.atom(label="b")
        if kind == "numbers":
            lo, hi = w.number("int", "a"), w.number("frac", "b")
        elif kind == "the variable and another":
            lo = x
        elif kind == "another and the variable":
            hi = x
        elif kind == "equal":
            hi = lo
        return lo, hi

    l = integ.lookup("integrate_bounds")
    if l and l[1][0] == "func":
        f = l[1][1]
        for kind in KINDS:
            if kind in ("numbers", "infinite"):
                continue

            def go(it, f=f, kind=kind):
                x, e = it.world.symbol("x"), it.world.atom(label="e")
                lo, hi = bounds(it, kind, x)
                s = it.construct(integ, [], {})
                r = attempt(it, lambda: it.call_method(s, "integrate_bounds", [e, (x, lo, hi)], {}))
                return judged(it, r, e, x, lo, hi, f)

            entry(f"{f.short}, bounds: {kind}", go, f)

    # the public entry
    if public is None:
        return out

    def given(it, n):
        """An integrand with n variables; the integrand and the first variable (or another one)."""
        e = it.world.atom(label="e")
        vs = [it.world.symbol(k) for k in "xyz"[:n]]
        it.symlists[e.term()] = list(vs)
        return e, vs

    def call(it, e, how, b, kw=None):
        f = it.func_value(public)
        a = [e]
        k = dict(kw or {})
        if how == "positional":
            a.append(b)
        elif how == "keyword":
            k[public.node.args.args[1].arg] = b
        return attempt(it, lambda: it.call(f, a, k))

    for n in (0, 1, 2, 3):
        for how in ("omitted", "positional"):
            def gon(it, n=n, how=how):
                e, vs = given(it, n)
                r = call(it, e, how, None)
                if n != 1:
                    return [holds(isinstance(r, Raised), f"an integrand with {n} variables needs the variable", public)]
                return judged(it, r, e, vs[0], None, None, public)

            entry(f"integrate, no variable, {n} in the integrand ({how})", gon, public)
        for kind in ("expressions", "numbers"):
            def gob(it, n=n, kind=kind):
                e, vs = given(it, n)
                lo, hi = bounds(it, kind, vs[0] if vs else None)
                r = call(it, e, "positional", (lo, hi))
                if n != 1:
                    return [holds(isinstance(r, Raised), f"an integrand with {n} variables needs the variable", public)]
                return judged(it, r, e, vs[0], lo, hi, public)

            entry(f"integrate, bounds without variable, {n} in the integrand ({kind})", gob, public)
    for n in (1, 2):
        for how in ("positional", "keyword"):
            for which in range(n + 1):
                def gov(it, n=n, how=how, which=which):
                    e, vs = given(it, n)
                    x = vs[which] if which < n else it.world.symbol("t")
                    r = call(it, e, how, x)
                    return judged(it, r, e, x, None, None, public)

                entry(f"integrate, variable {which + 1} of {n} given ({how})", gov, public)
        for kind in KINDS:
            if kind == "infinite":
                continue
            for which in range(n + 1):
                def goi(it, n=n, kind=kind, which=which):
                    e, vs = given(it, n)
                    x = vs[which] if which < n else it.world.symbol("t")
                    lo, hi = bounds(it, kind, x)
                    r = call(it, e, "positional", (x, lo, hi))
                    return judged(it, r, e, x, lo, hi, public)

                entry(f"integrate, variable {which + 1} of {n} and bounds: {kind}", goi, public)

    def malformed(it):
        w = it.world
        x, a, b = w.symbol("x"), w.atom(label="a"), w.atom(label="b")
        return {
            "()": (), "(x,)": (x,), "(x, a, b, c)": (x, a, b, w.atom(label="c")), "a list": PList([a, b]), "a list with variable": PList([x, a, b]),
            "a number": 3, "a fraction": w.number("frac", "q"), "a text": "x", "a text as variable": ("x", 0, 1), "a number as variable": (w.atom({m.cls("Rat")}, label="r"), a, b),
            "an int as variable": (2, a, b), "a function as variable": (w.atom({m.cls("sin")}, label="s"), a, b), "a sum as variable": (w.atom({m.cls("Sum")}, label="s"), a, b), "an expression": w.atom({m.cls("Prod")}, label="p"), "a number expression": w.atom({m.cls("Rat")}, label="r"), "nothing but None": (None, None, None),
        }

    labels = ["()", "(x,)", "(x, a, b, c)", "a list", "a list with variable", "a number", "a fraction", "a text", "a text as variable", "a number as variable", "an int as variable", "a function as variable",
              "a sum as variable", "an expression", "a number expression", "nothing but None"]
    for lab in labels:
        def gom(it, lab=lab):
            e, vs = given(it, 1)
            r = call(it, e, "positional", malformed(it)[lab])
            if it.got and it.got[-1] is None and r is None:
                return [holds(True, "nothing to return")]
            return [holds(isinstance(r, Raised), f"{lab} is rejected", public)]

        entry(f"integrate, malformed bounds: {lab}", gom, public)
    return out


def run(rep):
    return engine.check(
        rep, entries, 6,
        "integrate and integrate_bounds are interpreted abstractly for every way of passing variable and bounds, with the search replaced by an unknown antiderivative or none; "
        "the returned value number must be the antiderivative at the upper bound minus that at the lower bound, and bounds of the wrong form, or a missing variable of an integrand without exactly one, must end in an exception.",
        "value at the upper bound minus value at the lower bound; rejected otherwise")
