"""C24: expanding and factoring keep the value; the combinatorial helpers agree with their definitions."""
from fractions import Fraction
from math import factorial

from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.values import BoolV, Done, PList


def compositions(i, n):
    if i == 0:
        return [[]] if n == 0 else []
    return [[v] + r for v in range(n + 1) for r in compositions(i - 1, n - v)]


def entries():
    m, K = get_model(), kinds()
    out = []
    P, S = K.by_name.get("Power"), K.by_name.get("Sum")

    def ref(c, n):
        l = c.lookup(n)
        return l if l and l[1][0] == "func" else None

    for c in sorted(K.universe, key=lambda c: c.name):
        for n in ("_expand", "expand", "factor"):
            l = ref(c, n)
            if not l:
                continue

            def go(it, c=c, l=l, n=n):
                x = it.world.atom([c], "e")
                return [Claim(x.term(), it.call(it.bind(it.member(l[0], n), x, c), [], {}))]

            out.append(Entry(f"{c.name}.{n}", go, l[1][1], "same value", paths=500, secs=8, negative=0.2))
    # powers of sums with a whole exponent: the multinomial expansion itself
    if P and S and ref(P, "_expand"):
        l = ref(P, "_expand")
        for k in (2, 3):
            for n in (2, 3, -2, -3, 4):
                if k == 3 and abs(n) > 3:
                    continue

                def gop(it, k=k, n=n):
                    ts = [it.world.atom(label=f"t{i}") for i in range(k)]
                    b = it.construct(S, [PList(ts)], {"skip_checks": True}, inline=True)
                    x = it.construct(P, [b, it.world.rat(Fraction(n))], {"skip_checks": True}, inline=True)
                    return [Claim(T.pow_(T.add(*[t.term() for t in ts]), T.q(n)), it.call(it.bind(it.member(l[0], "_expand"), x, P), [], {}))]

                out.append(Entry(f"Power._expand of a sum of {k} terms to the power {n}", gop, l[1][1], "same value", paths=60, secs=8, negative=0.2, inline=frozenset()))

        # an exponent that only becomes a whole number once it is expanded: the number that counts is the expanded one
        for n in (2, -2, 3, 1):

            def gox(it, n=n):
                x = it.world.atom([S], "x")
                if not it.decide(BoolV(("expandable", x.term()))):
                    raise Done()
                x.notes[("same", "expand")] = it.world.rat(Fraction(n))
                ts = [it.world.atom(label=f"t{i}") for i in range(2)]
                b = it.construct(S, [PList(ts)], {"skip_checks": True}, inline=True)
                p = it.construct(P, [b, x], {"skip_checks": True}, inline=True)
                # the base may be expanded too: with an unknown value equal to its own
                return [Claim(T.pow_(T.add(*[t.term() for t in ts]), T.q(n)), it.call(it.bind(it.member(l[0], "_expand"), p, P), [], {}))]

            out.append(Entry(f"Power._expand with an exponent that expands to {n}", gox, l[1][1], "same value", paths=60, secs=8, negative=0.2))

    # products over several factors whose numerator is a product or a single thing, with or without sums
    PR = K.by_name.get("Prod")
    if P and S and PR and ref(PR, "_expand"):
        lp = ref(PR, "_expand")
        fn = [c for c in sorted(K.universe, key=lambda c: c.name) if c.name in ("sin", "log")]
        for nums in (("f", "a"), ("f",), ("s", "a"), ("s", "s"), ("s", "f", "a"), ("f", "f", "q"), ("s",)):
            for dens in (("b", "d"), ("b", "s"), ("s",), ("s", "s"), ("f", "b"), ("q", "b"), ()):

                def god(it, nums=nums, dens=dens):
                    w = it.world

                    def thing(k, i):
                        if k == "f":
                            return w.atom(fn[:1] or None, f"f{i}")
                        if k == "s":
                            return it.construct(S, [PList([w.atom(label=f"s{i}"), w.atom(label=f"r{i}")])], {"skip_checks": True}, inline=True)
                        if k == "q":
                            return w.rat(Fraction(3 + i, 7))
                        return w.symbol(f"{k}{i}")

                    ts, want = [], []
                    for i, k in enumerate(nums):
                        t = thing(k, i)
                        ts.append(t)
                        want.append(t.term())
                    for i, k in enumerate(dens):
                        t = thing(k, i + 5)
                        want.append(T.pow_(t.term(), T.q(-1)))
                        ts.append(t if k == "q" else it.construct(P, [t, w.rat(Fraction(-1))], {"skip_checks": True}, inline=True))
                        if k == "q":
                            want[-1] = t.term()
                    if len(ts) < 2:
                        raise Done()
                    x = it.construct(PR, [PList(ts)], {"skip_checks": True}, inline=True)
                    if not it.truth(it.call(it.getattr(x, "expandable"), [], {})):
                        raise Done()
                    return [Claim(T.mul(*want), it.call(it.bind(it.member(lp[0], "_expand"), x, PR), [], {}))]

                out.append(Entry(f"Prod._expand of ({' '.join(nums)}) over ({' '.join(dens)})", god, lp[1][1], "same value", paths=60, secs=8, negative=0.2))

    def module_func(n):
        return next((f for f in m.funcs if f.cls is None and f.parent is None and f.name == n), None)

    f = module_func("generate_permutations")
    if f:
        for i, n in ((1, 0), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)):

            def gog(it, i=i, n=n):
                r = it.iterate(it.call(it.func_value(f), [i, n], {}))
                got = sorted(list(it.iterate(p)) for p in r)
                ok = got == sorted(compositions(i, n))
                return [Claim(T.ONE, T.ONE if ok else T.ZERO, "lists every split of n into i parts once")]

            out.append(Entry(f"generate_permutations({i}, {n})", gog, f, "enumeration", paths=20))
    f2 = module_func("multinomial_coefficient")
    if f2:
        for xs in ([2], [1, 1], [0, 3], [2, 1], [2, 2, 1], [3, 0, 2], [1, 1, 1, 1], [31, 30, 2]):

            def gom(it, xs=xs):
                n = sum(xs)
                want = factorial(n)
                for x in xs:
                    want //= factorial(x)
                r = it.call(it.func_value(f2), [PList(list(xs)), n], {})
                if isinstance(r, (int, Fraction)):
                    return [Claim(T.ONE, T.ONE if r == want else T.ZERO, "the coefficient, exactly")]
                return [Claim(T.q(want), r)]

            out.append(Entry(f"multinomial_coefficient({xs})", gom, f2, "enumeration", paths=20))
    return out


def run(rep):
    return engine.check(
        rep, entries, 8,
        "expand, _expand and factor of every kind of expression are interpreted abstractly on arbitrary operands (and powers of sums on small concrete exponents); each path's result is compared with the operand. The combinatorial helpers are interpreted on small concrete arguments.",
        "an expanded or factored expression denotes the same value")
