"""Sums, products and powers built by the constructors under analysis, as structured values."""
from fractions import Fraction as Q

from ..model import get_model
from .interp import kinds
from .values import Done, ExprV, PList, Undecided, as_term


class Key:
    """functools.cmp_to_key(fn)"""

    def __init__(self, fn):
        self.fn = fn


# ------------------------------------------------------------------ structure
def skeleton(it, v, depth=0):
    """A value that two expressions share exactly when they are the same expression (numbers: as terms)."""
    if depth > 8:
        raise Undecided("depth")
    x = v.rep()
    if x.exact is None:
        return ("t", x.term())
    c = x.exact
    if c in it.kinds.consts:
        return (c.name,)
    if c in it.kinds.nums:
        return (c.name, as_term(it.field(x, "value")))
    if c.name == "Symbol" or not any(n in x.f for n in it.kinds.fields[c]):
        return (c.name, x.uid)
    out = [c.name]
    for n in it.kinds.fields[c]:
        f = it.field(x, n)
        out += [skeleton(it, i, depth + 1) for i in f.items] if isinstance(f, PList) else [skeleton(it, f, depth + 1)]
    return tuple(out)


def same(it, a, b):
    """Are two skeletons the same expression?"""
    if a == b:
        return True
    if {a[0], b[0]} == {"Rat", "Float"}:
        a, b = ("Float",) + a[1:], ("Float",) + b[1:]  # numbers are equal when their values are
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] in ("Rat", "Float", "t"):
        r = it.cmp_terms("==", a[1], b[1])
        return it.truth(r)
    if any(not isinstance(p, tuple) for p in a[1:] + b[1:]):
        # opaque objects: the same one, or known to be equal
        p, q = it.world.leaf.get(a[1]), it.world.leaf.get(b[1])
        if isinstance(p, ExprV) and isinstance(q, ExprV):
            return it.truth(it.equal(p, q))
        return False
    return all(same(it, p, q) for p, q in zip(a[1:], b[1:]))


# ------------------------------------------------------------------ one fixed order of distinct terms
def rank(it, v):
    x = v.rep()
    return {"Rat": 0, "Float": 1}.get(x.exact.name if x.exact else "", 2 if x.exact in it.kinds.consts else 3)


def canonical(it, items):
    """Sorted in an order that depends on the items only (equal ones keep their place)."""
    def below(x, y):
        n, m = rank(it, x), rank(it, y)
        if n != m:
            return n < m
        a, b = skeleton(it, x), skeleton(it, y)
        if a == b or same(it, a, b):
            return False
        return order(it, a, b)

    out = []
    for v in items:
        i = len(out)
        while i > 0 and below(v, out[i - 1]):
            i -= 1
        out.insert(i, v)
    return out


def order(it, a, b):
    """A fixed order of different skeletons: opaque objects in the order of their first representative."""
    def norm(s):
        if s[0] in ("Rat", "Float", "t"):
            return (s[0], repr(s[1]))
        if len(s) > 1 and not isinstance(s[1], tuple):
            x = it.world.leaf.get(s[1])
            for u in it.reps:
                y = it.world.leaf.get(u)
                if u == s[1] or isinstance(x, ExprV) and isinstance(y, ExprV) and x.rep().classes == y.rep().classes and it.truth(it.equal(x, y)):
                    return (s[0], repr(u))
            it.reps.append(s[1])
            return (s[0], repr(s[1]))
        return (s[0], *[norm(p) for p in s[1:]])

    return repr(norm(a)) < repr(norm(b))


class Builder:
    """Entry options under which sums and products are built by interpreting their constructors."""

    def __init__(self):
        self.m, self.K = get_model(), kinds()
        self.Sum, self.Prod, self.Power = self.m.cls("Sum"), self.m.cls("Prod"), self.m.cls("Power")
        self.gen = self.K.by_name["sin"]

    def options(self, concrete=False):
        """concrete: powers of given numbers are computed by the constructor as well."""
        return dict(
            max_rec=8, builtin_hook=self.sort_hook, construct_hook=self.power_hook, op_hook=self.arith, neg_hook=self.negated,
            inline=frozenset([("construct", n) for n in ("Sum", "Prod", "Float", *(["Power"] if concrete else []))]),
            structured=True, no_side=True, commute=True)

    @staticmethod
    def start(it, concrete=False):
        it.env, it.reps, it.inline_power, it.sorted = {}, [], concrete, False

    def sort_hook(self, it, name, a, k):
        n = name.split(".")[-1]
        if n == "cmp_to_key":
            return Key(a[0])
        if n == "sorted" and not k.get("reverse"):
            if isinstance(k.get("key"), Key):
                it.sorted = True
                return PList(canonical(it, list(it.iterate(a[0]))))
            raise Undecided("sorted by another key")
        return NotImplemented

    def power_hook(self, it, c, a, kw):
        if c is not self.Power or kw.get("skip_checks", False) is not False or it.inline_power:
            return NotImplemented
        names = ["base", "exponent"]
        args = dict(zip(names, a))
        args.update(kw)
        b, x = it.castv(args["base"]), it.castv(args["exponent"])
        if x.rep().exact is None or b.rep().exact is None or b.rep().exact in self.K.nums - self.K.consts:
            raise Undecided("power of a number")
        if x.rep().exact in self.K.nums:
            if it.truth(it.equal(x, Q(0))):
                return it.world.rat(Q(1))
            if it.truth(it.equal(x, Q(1))):
                return b
        if b.rep().exact is self.Power:
            raise Undecided("power of a power")
        p = ExprV(it.world, frozenset([self.Power]))
        p.f["base"], p.f["exponent"] = b, x
        return p

    def negated(self, it, v):
        c = v.rep().exact
        if c is None or c in self.K.nums or getattr(it, "env", None) is None:
            return NotImplemented
        l = c.lookup("__neg__")
        return it.castv(it.call(it.bind(it.member(l[0], "__neg__"), v, c), [], {}))

    def arith(self, it, op, a, b=None, node=None):
        """Operators build sums and products; those are built by the constructors under analysis."""
        n = type(op).__name__ if not isinstance(op, type) else op.__name__
        xs = [a] if b is None else [a, b]
        if not any(isinstance(v, ExprV) for v in xs) or getattr(it, "env", None) is None:
            return NotImplemented
        xs = [it.castv(v) for v in xs]
        if any(v is None or not isinstance(v, ExprV) for v in xs):
            return NotImplemented
        if all(v.rep().exact in self.K.nums - self.K.consts for v in xs):
            return NotImplemented
        minus = lambda v: self.negated(it, v)
        if n == "Add":
            return self.build(it, self.Sum, xs)
        if n == "Sub":
            return self.build(it, self.Sum, [xs[0], minus(xs[1])])
        if n == "Mult":
            return self.build(it, self.Prod, xs)
        if n in ("Pow", "Div") and it.inline_power:
            p = it.castv(it.construct(self.Power, [xs[0], xs[1]] if n == "Pow" else [xs[1], it.world.rat(Q(-1))], {}, inline=True))
            return p if n == "Pow" else self.build(it, self.Prod, [xs[0], p])
        return NotImplemented

    def item(self, it, s):
        env = it.env
        if isinstance(s, (int, Q)):
            return it.world.rat(Q(s))
        if isinstance(s, float):
            return it.world.float_(s)
        if isinstance(s, str):
            if s not in env:
                if s[0] == "$":
                    env[s] = it.construct(self.m.cls("Symbol"), [s[1:]], {})
                elif s[0].isupper():
                    env[s] = it.world.atom(frozenset([self.gen]), s)
                elif s[0] in "xyz":
                    env[s] = it.construct(self.m.cls("Symbol"), [s], {})
                elif s in ("pi", "e"):
                    env[s] = it.construct(self.m.cls({"pi": "Pi", "e": "E"}[s]), [], {})
                elif s[0] == "f":
                    env[s] = it.world.float_(it.world.number("float", s))
                else:
                    env[s] = it.world.rat(it.world.number("frac", s))
            return env[s]
        if s[0] == "Power":
            b, x = self.item(it, s[1]), self.item(it, s[2])
            if x.rep().exact in self.K.nums:
                # such a power is a power only for other exponents
                if it.truth(it.equal(x, Q(0))) or it.truth(it.equal(x, Q(1))):
                    raise Done()
            p = ExprV(it.world, frozenset([self.Power]))
            p.f["base"], p.f["exponent"] = b, x
            return p
        if s[0] == "pow":  # built by the constructor
            return it.construct(self.Power, [self.item(it, s[1]), self.item(it, s[2])], {}, inline=True)
        if s[0] in self.K.by_name and s[0] not in ("Sum", "Prod"):
            p = ExprV(it.world, frozenset([self.K.by_name[s[0]]]))
            for n, v in zip(self.K.fields[self.K.by_name[s[0]]], s[1:]):
                p.f[n] = self.item(it, v)
            return p
        return self.build(it, self.m.cls(s[0]), [self.item(it, v) for v in s[1:]])

    def build(self, it, cls, xs):
        return it.castv(it.construct(cls, [PList(list(xs))], {}, inline=True))

