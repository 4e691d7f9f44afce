"""C22: construction of powers, logarithms and absolute values preserves the value."""
from fractions import Fraction as Q

from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds


def entries():
    m, K = get_model(), kinds()
    out = []

    def new(n):
        l = K.by_name[n].lookup("__new__")
        return l[1][1] if l else None

    groups = {"number": K.nums & K.universe - K.set("Infinity", "NegInfinity"), "Power": K.set("Power"), "Prod": K.set("Prod"), "Sum": K.set("Sum"), "log": K.set("log")}
    groups["other"] = K.universe - frozenset().union(*groups.values())
    for bn, bk in groups.items():
        for xn, xk in groups.items():
            def go(it, bk=bk, xk=xk):
                b, x = it.world.atom(bk, "base"), it.world.atom(xk, "exponent")
                r = it.construct(K.by_name["Power"], [b, x], {}, inline=True)
                return [Claim(T.pow_(b.term(), x.term()), r)]

            out.append(Entry(f"Power({bn}, {xn})", go, new("Power"), "constructor", paths=400, secs=8))
        def golog(it, bk=bk, default=False):
            a = it.world.atom(bk, "inner")
            b = it.world.atom(label="base")
            r = it.construct(K.by_name["log"], [a, b], {}, inline=True)
            return [Claim(("log", a.term(), b.term()), r)]

        def golog1(it, bk=bk):
            a = it.world.atom(bk, "inner")
            r = it.construct(K.by_name["log"], [a], {}, inline=True)
            return [Claim(T.fn("ln", a.term()), r)]

        def goabs(it, bk=bk):
            a = it.world.atom(bk, "inner")
            r = it.construct(K.by_name["Abs"], [a], {}, inline=True)
            return [Claim(T.fn("abs", a.term()), r)]

        out.append(Entry(f"log({bn}, base)", golog, new("log"), "constructor", paths=300))
        out.append(Entry(f"log({bn})", golog1, new("log"), "constructor", paths=300))
        out.append(Entry(f"Abs({bn})", goabs, new("Abs"), "constructor", paths=300, negative=0.4))
    def goroot(it):
        b, x = it.world.atom(K.set("Rat"), "base"), it.world.atom(K.set("Rat"), "exponent")
        it.world.even_roots, it.world.root_of = True, b.term()
        it.world.fact("lt", (b.term(), T.ZERO), True)
        r = it.construct(K.by_name["Power"], [b, x], {}, inline=True)
        return [Claim(T.pow_(b.term(), x.term()), r)]

    out.append(Entry("Power(negative number, even/odd)", goroot, new("Power"), "constructor", paths=400, secs=8))
    # particular rationals: roots that come out partly, reciprocals, signs
    nums = [(a, b) for a in (Q(3, 4), Q(8, 3), Q(4, 9), Q(2), Q(1, 2), Q(12), Q(5, 27), Q(2, 3), Q(8, 27), Q(50, 9)) for b in (Q(1, 2), Q(-1, 2), Q(1, 3), Q(-1, 3), Q(2, 3), Q(-3, 2), Q(5, 2), Q(3), Q(-2))]
    nums += [(-a, b) for a in (Q(8), Q(2), Q(3, 8), Q(8, 3), Q(1, 27), Q(2, 27)) for b in (Q(1, 3), Q(-1, 3), Q(5, 3), Q(3), Q(-2), Q(-3))]
    for b, x in nums:
        def gonum(it, b=b, x=x):
            return [Claim(T.pow_(T.q(b), T.q(x)), it.construct(K.by_name["Power"], [it.world.rat(b), it.world.rat(x)], {}, inline=True))]

        out.append(Entry(f"Power({b}, {x})", gonum, new("Power"), "constructor", paths=40, max_rec=8, k_list=(2,), max_steps=200000, inline=frozenset([("construct", "Power"), ("construct", "Prod")])))
    for f in m.funcs:
        if f.cls is None and f.parent is None and f.name == "_is_strictly_positive":
            def gopos(it, f=f):
                a = it.world.atom(label="x")
                r = it.truth(it.call(it.func_value(f), [a], {}))
                return [Claim(("not", ("lt", a.term(), T.ZERO)), T.ONE)] if r else []

            out.append(Entry("_is_strictly_positive", gopos, f, "sign", paths=600, negative=0.5))
        if f.cls is None and f.parent is None and f.name == "sqrt":
            def gos(it, f=f):
                a = it.world.atom(label="x")
                r = it.call(it.func_value(f), [a], {})
                return [Claim(T.pow_(a.term(), T.q(T.HALF)), r)]

            out.append(Entry("sqrt", gos, f, "constructor", inline=frozenset([("name", "sqrt")])))
    return out


def run(rep):
    return engine.check(
        rep, entries, 20,
        "The constructors of powers, logarithms and absolute values, sqrt and the positivity test are interpreted abstractly for every pair of operand kinds; on each abstract path the value number of the result is compared with the power, logarithm or absolute value of the operands' value numbers.",
        "the value returned by the constructor equals the power / logarithm / absolute value of its operands wherever that is real")
