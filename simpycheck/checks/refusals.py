"""Operations with no answer: interpreted on the inputs they must refuse; every path has to end in an exception."""
from ..model import get_model
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.values import PDict, PList, Raised


def entries():
    m, K = get_model(), kinds()
    out = []
    by = {}
    for f in m.funcs:
        if ".debug" in f.module.name or f.parent is not None:
            continue
        by.setdefault((f.cls.name if f.cls else None, f.name), f)

    def refuse(name, f, run, **kw):
        if f is None:
            return

        def go(it):
            call, args = run(it)
            try:
                r = call(*args)
            except Raised:
                return [Claim(T.ONE, T.ONE, "refused", loc=f.loc(f.node))]
            what = "nothing" if r is None else type(r).__name__
            return [Claim(T.ONE, T.ZERO, f"must be refused with an exception, but a result ({what}) comes back", rule="accepted", loc=f.loc(f.node))]

        out.append(Entry(name, go, f, "accepted", paths=60, **kw))

    fn = lambda n: by.get((None, n))
    at = lambda it: it.world.atom(label="e")

    f = fn("multinomial_coefficient")
    for xs, n in (((1,), 0), ((2, 3), 4), ((4, 0, 1), 4), ((1, 1, 1, 1, 1, 1, 1), 3), ((5, 5), 9)):
        refuse(f"multinomial_coefficient({list(xs)}, {n})", f, lambda it, xs=xs, n=n: (it.call, (it.func_value(fn("multinomial_coefficient")), [PList(list(xs)), n], {})))

    f = fn("_cast")
    for lab, v in (("a text", "x"), ("a complex number", 1j), ("bytes", b"1"), ("a list holding a text", lambda it: PList([1, "x"])), ("a dict holding a text", lambda it: PDict([(it.dkey("a"), "x")]))):
        if f is not None:
            refuse(f"_cast of {lab}", f, lambda it, v=v, f=f: (it.call, (it.func_value(f), [v(it) if callable(v) else v], {})))

    anyc = next((c for c in m.classes if c.name == "Any_"), None)
    if anyc is not None:
        mk = lambda it, k="k": it.construct(anyc, [k], {})
        subst, var, none = lambda it: [PDict([(it.dkey("x"), at(it))])], lambda it: [it.world.symbol("x")], lambda it: []
        for n, lab, args in (("subs", "with values", subst), ("_evalf", "with values", subst), 
                             ("diff", "by a variable", var), ("latex", "", none)):
            l = anyc.lookup(n)
            if l and l[1][0] == "func":
                refuse(f"Any_.{n} {lab}".strip(), l[1][1], lambda it, n=n, l=l, args=args: (it.call, (it.bind(it.member(l[0], n), mk(it), anyc), args(it), {})))
        for n in ("eq", "Eq"):
            for lab, order in (("both", (1, 1)), ("the expression", (1, 0))):
                f = fn(n)
                c = next((c for c in m.classes if c.name == n), None)
                if n == "eq" and lab != "both" and f is not None:
                    continue  # eq swaps its arguments
                f = f or c and c.lookup("__init__") and c.lookup("__init__")[1][1]
                if f is None:
                    continue

                def run(it, f=f, c=c, order=order):
                    a = [mk(it, "a") if order[0] else at(it), mk(it, "b") if order[1] else it.world.symbol("y")]
                    return (it.call, (it.func_value(f), a, {})) if f.cls is None else (it.construct, (c, a, {}))

                refuse(f"{n} with placeholders in {lab}", f, run)

    # no variable, or two variables and none named; bounds of an unknown form
    def unknown(n):
        def make(it):
            e = it.world.atom(K.universe - K.set("Symbol") - K.nums, "e")
            vs = [it.world.symbol(f"s{i}") for i in range(n)]
            for v in vs:
                it.world.var(v.uid)
            for i, v in enumerate(vs):
                for w in vs[:i]:
                    it.world.fact("eq", (w.term(), v.term()), False)
            it.symlists[e.term()] = vs
            return e

        return make

    two, one = unknown(2), unknown(1)
    number = lambda it: it.construct(K.by_name["Rat"], [3], {})
    forms = (("diff", "an expression in two variables without naming the variable", two, ()), ("integrate", "an expression in two variables without naming the variable", two, ()), ("integrate", "an expression in three variables without naming the variable", unknown(3), ()), ("integrate", "a number without naming the variable", number, ()),
             ("integrate", "an expression in two variables between bounds without naming the variable", two, (lambda it: (1, 2),)), ("integrate", "a number between bounds without naming the variable", number, (lambda it: (1, 2),)),
             ("integrate", "an expression in one variable with a text for bounds", one, (lambda it: "x",)), ("integrate", "an expression in one variable with a list for bounds", one, (lambda it: PList([1, 2]),)),
             ("integrate", "an expression in one variable with a number for bounds", one, (lambda it: 3,)))
    for n, lab, e, more in forms:
        f = fn(n)
        if f is not None:
            refuse(f"{n} of {lab}", f, lambda it, f=f, e=e, more=more: (it.call, (it.func_value(f), [e(it)] + [b(it) for b in more], {})), inline=frozenset([("name", n)]))
    for c in m.classes:
        if c.name in ("asin", "acos", "atan", "asec", "acsc", "acot") and c.lookup("reciprocal_class"):
            refuse(f"{c.name}.reciprocal_class", by.get((c.lookup("reciprocal_class")[0].name, "reciprocal_class")), lambda it, c=c: (it.getattr, (c, "reciprocal_class")))
    return out
