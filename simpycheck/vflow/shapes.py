"""Expressions of a given shape over named unknowns."""
from fractions import Fraction

from . import terms as T
from .values import ExprV, Infeasible, PList


class One:
    """Any of the alternatives (a branch decision)."""

    def __init__(self, *alts):
        self.alts = alts


def mk(it, s):
    """s: a name (an unknown; upper case: any expression, lower case: a symbol), a number, One(...), or (kind, fields...)."""
    K, w = it.kinds, it.world
    env = it.__dict__.setdefault("shape_env", {})
    if isinstance(s, One):
        return mk(it, s.alts[it.choose(len(s.alts), "shape") if len(s.alts) > 1 else 0])
    if isinstance(s, (int, Fraction)):
        return w.rat(Fraction(s))
    if isinstance(s, str):
        if s not in env:
            env[s] = w.atom(label=s) if s[0].isupper() else w.symbol(s)
            w.var(env[s].uid) if s[0].islower() else None
        return env[s]
    name, args = s[0], s[1:]
    if name == "const":  # an expression without the variable x
        x = mk(it, "x")
        if args[0] not in env:
            env[args[0]] = w.atom(label=args[0])
            w.assume_contains(env[args[0]].term(), x.uid, False)
        return env[args[0]]
    if name == "rat":  # an unknown fraction
        if args[0] not in env:
            env[args[0]] = w.rat(w.number("frac", args[0]))
        return env[args[0]]
    if isinstance(name, One):
        name = name.alts[it.choose(len(name.alts), "kind")]
    c = K.by_name[name]
    x = ExprV(w, frozenset([c]))
    if name in ("Sum", "Prod"):
        xs = [mk(it, a) for a in args]
        ts = [base_of(it, v) if name == "Prod" else v.term() for v in xs]
        if any(generic_equal(it, ts[i], ts[j]) for i in range(len(ts)) for j in range(i)):
            raise Infeasible()  # equal terms are combined when a sum or product is made
        for v in xs:
            if v.uid is not None and not v.f:
                v.neqs += [T.ZERO, T.ONE][: 1 + (name == "Prod")]
                w.fact("numeq", (v.term(), T.ZERO), False)
        x.f["terms"] = PList(xs)
    else:
        vals = [mk(it, a) for a in args]
        if name == "log" and len(vals) == 1:
            vals.append(w.atom(K.set("E")))
        for n, v in zip(K.fields[c], vals):
            x.f[n] = v
    return x


def base_of(it, x):
    return x.f["base"].term() if x.exact is it.kinds.by_name.get("Power") and "base" in x.f else x.term()


def generic_equal(it, a, b):
    """Are two values the same at generic values of the unknowns? None: cannot tell."""
    if a == b:
        return True
    agree = differ = 0
    for s in it.world.samples(11, 4, tries=60):
        try:
            u, v = s.ev(a), s.ev(b)
        except T.Reject:
            continue
        if T.close(u, v):
            agree += 1
        else:
            differ += 1
    if agree + differ == 0 or agree and differ:
        return None
    return agree > 0
