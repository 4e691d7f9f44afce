"""C07: derivatives. Every diff method's returned value number must be d(value of the object)/d(variable)."""
from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds


def entries():
    m, K = get_model(), kinds()
    out = []
    for c in sorted(K.universe, key=lambda c: c.name):
        l = c.lookup("diff")
        if not l or l[1][0] != "func":
            continue
        f = l[1][1]

        def go(it, c=c, l=l):
            x = it.world.atom([c], "e")
            v = it.world.symbol("x")
            it.world.var(v.uid)
            r = it.call(it.bind(it.member(l[0], "diff"), x, c), [v], {})
            return [Claim(("D", x.term(), ("a", v.rep().uid)), r)]

        out.append(Entry(f"{c.name}.diff", go, f, "derivative", negative=0.3))
    for f in m.funcs:
        if f.cls is None and f.parent is None and f.name == "diff":
            for n in range(3):

                def god(it, f=f, n=n):
                    x = it.world.atom(K.universe - K.set("Symbol") - K.nums, "e")
                    syms = [it.world.symbol(f"s{i}") for i in range(n)]
                    for v in syms:
                        it.world.var(v.uid)
                    it.symlists[x.term()] = syms
                    r = it.call(it.func_value(f), [x], {})
                    if n == 1:
                        return [Claim(("D", x.term(), ("a", syms[0].rep().uid)), r)]
                    if n == 0:
                        return [Claim(T.ZERO, r)]
                    return [Claim(T.ONE, T.ZERO, "must not pick a variable by itself")]

                out.append(Entry(f"diff(expr) with {n} symbols", god, f, "derivative", inline=frozenset([("name", "diff")])))

            def gov(it, f=f):
                x = it.world.atom(label="e")
                v = it.world.symbol("x")
                it.world.var(v.uid)
                return [Claim(("D", x.term(), ("a", v.rep().uid)), it.call(it.func_value(f), [x, v], {}))]


            out.append(Entry("diff(expr, var)", gov, f, "derivative", inline=frozenset([("name", "diff")])))
    return out


def run(rep):
    return engine.check(
        rep, entries, 10,
        "Every kind's diff method is interpreted abstractly on an arbitrary object of that kind and an arbitrary symbol; on each abstract path the value number of the returned expression is compared with the derivative of the object's value number. diff() itself must demand a variable unless exactly one symbol occurs.",
        "the value returned by diff denotes d(object)/d(variable)")
