"""C09: trigonometric construction. Every value returned by a constructor must be the function applied to the argument."""
from fractions import Fraction

from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.values import ExprV, PList

UNDEFINED = {  # multiples of pi/12 modulo 12 where the function has a pole
    "tan": {6}, "sec": {6}, "cot": {0}, "csc": {0},
}


def angle(it, k):
    """k*pi/12 as the package builds it."""
    w, K = it.world, it.kinds
    if k == 0:
        return w.rat(0)
    pi = ExprV(w, K.set("Pi"))
    if k == 12:
        return pi
    x = ExprV(w, K.set("Prod"), fresh=False)
    x.f["terms"] = PList([w.rat(Fraction(k, 12)), pi])
    return x


def entries():
    m, K = get_model(), kinds()
    out = []
    for c in sorted(K.universe, key=lambda c: c.name):
        if c.name not in K.TRIG:
            continue
        l = c.lookup("__new__")
        f = l[1][1] if l and l[1][0] == "func" else None
        inl = frozenset([("construct", c.name)])

        def go(it, c=c):
            x = it.world.atom(label="arg")
            r = it.construct(c, [x], {}, inline=True)
            return [Claim(T.fn(c.name, x.term()), r)]

        out.append(Entry(c.name, go, f, "constructor", paths=500, secs=12, negative=0.3, inline=inl))
        if c.name.startswith("a"):
            continue
        # every row of the special-value tables: arguments k*pi/12
        for k in list(range(-13, 26)) + [-44, -29, 29, 38, 43, 58]:
            if k % 12 in UNDEFINED.get(c.name, ()):
                continue

            def gok(it, c=c, k=k):
                a = T.mul(T.q(Fraction(k, 12)), T.PI)
                x = angle(it, k)
                r = it.construct(c, [x], {}, inline=True)
                return [Claim(T.fn(c.name, a), r)]

            out.append(Entry(f"{c.name}({k}/12 pi)", gok, f, "special value", paths=60, secs=2, negative=0.3, inline=inl))
    return out


def run(rep):
    return engine.check(
        rep, entries, 5,
        "Each trigonometric and inverse-trigonometric constructor is interpreted abstractly on an arbitrary argument (every kind of expression) and on multiples k*pi/12; on each abstract path the value number of the returned expression is compared with the function applied to the argument's value number.",
        "the value returned by a trigonometric constructor equals the mathematical function of the argument (inverses of the own function on the principal branch)")
