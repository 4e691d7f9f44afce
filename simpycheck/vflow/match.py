"""Pattern comparison itself: what it reports as the match, the factor and the rest has to make up the expression."""
from fractions import Fraction

from ..model import get_model
from . import terms as T
from .build import Builder, same, skeleton
from .engine import Claim, Entry
from .interp import kinds
from .values import Done, ExprV, PDict, PList, Raised

HALF = Fraction(1, 2)
INTERNAL = ("KeyError", "IndexError", "TypeError", "AttributeError", "AssertionError", "NameError", "UnboundLocalError", "RecursionError")


def cases():
    out = []
    for c, s, f in ((1, 1, "tan"), (1, -1, "sin"), (-1, 1, "sec")):
        sq = lambda a, f=f: ("Power", (f, a), 2)
        q = ("Sum", c, ("Prod", s, sq("any")))
        es = [("Sum", c, ("Prod", s, sq("A")), "R"), ("Sum", ("Prod", c, "Q"), ("Prod", s, "Q", sq("A")), "R"), ("Sum", "Q", ("Prod", s, "P", sq("A")), "R")]
        if f == "tan":
            es += [("Sum", "q", ("Prod", "p", sq("A")), "R"), ("Sum", ("Prod", c, "Q"), ("Prod", s, "Q", sq("A")), ("Prod", s, "Q", sq("B"))),
                   ("Sum", c, ("Prod", s, sq("A")), ("Prod", s, sq("B"))), ("Sum", ("Prod", 2, "Q"), ("Prod", "Q", sq("A")), 1),
                   ("Sum", "Q", ("Prod", "Q", ("Power", (f, "A"), 3)), "R"), ("Sum", c, ("Prod", s, sq("A"))),
                   ("Sum", "P", ("Prod", "P", "Q", sq("A")), ("Prod", "P", sq("B"))),
                   ("Sum", 1, ("Power", ("tan", "x"), 2), ("Power", ("tan", "y"), 2), "z"), ("Sum", "x", "y", ("Prod", "y", ("Power", ("tan", "x"), 2)), ("Prod", "x", ("Power", ("tan", "y"), 2)))]
        out += [(q, e, True, True) for e in es]
    for f, g in (("sin", "sec"), ("cos", "csc")):
        q = ("Prod", (f, "any"), (g, "any"))
        es = [("Prod", (f, "A"), (g, "B")), ("Prod", "Q", (f, "A"), (g, "A"))]
        if f == "sin":
            es += [("Prod", "q", (f, "A"), (g, "B")), ("Prod", "x", "y", (f, "A"), (g, "A")), ("Prod", ("Power", (f, "A"), 2), (g, "B")), ("Prod", (f, "A"), (f, "B"), (g, "B")),
                   ("Prod", (f, "x"), (g, "y")), ("Prod", 3, "x", (f, "x"), (g, "x")), ("Prod", (f, "x"), (f, "y"), (g, "x"), (g, "y"))]
        out += [(q, e, True, False) for e in es]
    out += [(q, e, False, False) for q, e in (
        (("Power", "any1", "any2"), ("Power", "x", "Y")), (("Prod", "x", "any1"), ("Prod", "x", "Y")), (("Prod", 2, "any1"), ("Prod", 4, "Y")), (("Prod", 2, "any1"), "x"),
        (("Sum", "any1", ("Power", "x", 2)), ("Sum", "A", ("Power", "x", 2))), (("Power", "any1", 2), ("Power", "A", 2)), (("Power", "any1", 2), ("Power", "A", 3)),
        (("Prod", "any1", ("sin", "any1")), ("Prod", "A", ("sin", "A"))), (("Prod", ("sin", "any1"), ("cos", "any2")), ("Prod", ("sin", "A"), ("cos", "B"))),
        (("Sum", ("sin", "any1"), ("cos", "any1")), ("Sum", ("sin", "A"), ("cos", "B"))), (("Prod", ("Power", ("sin", "any1"), 2), ("cos", "any1")), ("Prod", ("Power", ("sin", "A"), 2), ("cos", "B"))),
        (("Power", ("sin", "any1"), "any1"), ("Power", ("sin", "x"), "y")), (("Sum", ("sin", "any1"), ("cos", "any1")), ("Sum", ("sin", "x"), ("cos", "y"))), (("log", "any1", "e"), ("log", "A", "e")), (("log", "any1", "any1"), ("log", "x", "y")))]
    out += [(q, e, True, False) for q, e in ((("Power", "any1", 2), ("Prod", "Q", ("Power", "x", 2))), (("sin", "any1"), ("Prod", "q", ("sin", "A"))), (("sin", "any1"), ("Prod", "x", ("sin", "A"))))]
    out += [(q, e, False, True) for q, e in ((("Sum", ("sin", "any1"), ("cos", "any1")), ("Sum", ("sin", "A"), ("cos", "A"), "R")), (("Sum", ("sin", "any1"), ("cos", "any2")), ("Sum", ("sin", "A"), ("cos", "B"), "R")))]
    return out


def text(s):
    return str(s) if not isinstance(s, tuple) else f"{s[0]}({', '.join(text(v) for v in s[1:])})"


MORE = [  # deeper: (pattern, expression, up to a factor, in a sum)
    (("Sum", 1, ("Power", ("cot", "any"), 2)), ("Sum", "x", ("Prod", "x", ("Power", ("cot", "A"), 2)), ("Prod", "x", ("Power", ("cot", "B"), 2)), "y", "z"), True, True),
    (("Sum", 1, ("Power", ("tan", "any"), 2)), ("Sum", ("Prod", "x", "y"), ("Prod", "x", "y", ("Power", ("tan", "A"), 2)), ("Prod", "x", ("Power", ("tan", "B"), 2))), True, True),
    (("Sum", 1, ("Power", ("tan", "any"), 2)), ("Sum", "x", "y", "z", ("Prod", "z", ("Power", ("tan", "x"), 2)), ("Prod", "x", ("Power", ("tan", "z"), 2)), ("Prod", "y", ("Power", ("tan", "A"), 2))), True, True),
    (("Sum", 1, ("Power", ("tan", "any"), 2)), ("Sum", ("Power", ("tan", "A"), 2), ("Prod", ("Power", ("tan", "A"), 2), ("Power", ("tan", "B"), 2)), "x"), True, True),
    (("Sum", 1, ("Prod", -1, ("Power", ("cos", "any"), 2))), ("Sum", "x", ("Prod", -1, "x", ("Power", ("cos", "A"), 2)), ("Prod", -1, ("Power", ("cos", "B"), 2)), 1), True, True),
    (("Sum", -1, ("Power", ("csc", "any"), 2)), ("Sum", ("Prod", -1, "x"), ("Prod", "x", ("Power", ("csc", "A"), 2)), ("Power", ("csc", "A"), 2), "y"), True, True),
    (("Sum", ("sin", "any1"), ("cos", "any1"), ("tan", "any1")), ("Sum", ("sin", "A"), ("cos", "B"), ("tan", "C")), False, False),
    (("Sum", ("sin", "any1"), ("cos", "any2")), ("Sum", ("sin", "A"), ("cos", "B"), ("sin", "C"), "x"), False, True),
    (("Sum", ("sin", "any1"), ("Prod", "any1", ("cos", "any1"))), ("Sum", ("sin", "x"), ("Prod", "y", ("cos", "x")), "z"), False, True),
    (("Prod", ("sin", "any"), ("sec", "any")), ("Prod", "x", ("sin", "A"), ("sin", "B"), ("sec", "C")), True, False),
    (("Prod", ("sin", "any"), ("sec", "any")), ("Prod", ("sin", "A"), ("Power", ("sec", "B"), 2)), True, False),
    (("Prod", ("sin", "any"), ("sec", "any")), ("Prod", ("sin", "A"), ("Power", ("sec", "A"), -1)), True, False),
    (("Prod", ("sin", "any"), ("sec", "any")), ("Sum", ("sin", "A"), ("sec", "A")), True, False),
    (("Prod", ("sin", "any"), ("sec", "any")), ("sin", "A"), True, False),
    (("Prod", ("cos", "any"), ("csc", "any")), ("Prod", "q", "x", ("cos", "A"), ("csc", "B")), True, False),
    (("Prod", ("Power", "any1", 2), ("Power", "any2", 3)), ("Prod", ("Power", "x", 2), ("Power", "y", 3)), False, False),
    (("Prod", ("Power", "any1", 2), ("Power", "any1", 3)), ("Prod", ("Power", "x", 2), ("Power", "y", 3)), False, False),
    (("Sum", ("sin", "any1"), ("cos", "any1")), ("Sum", ("sin", "A"), ("cos", "B")), True, False),
    (("Sum", ("sin", "any1"), ("cos", "any1")), ("Sum", ("Prod", "x", ("sin", "A")), ("Prod", "x", ("cos", "B"))), True, False),
    (("Sum", ("sin", "any1"), ("cos", "any2")), ("Sum", ("Prod", "x", ("sin", "A")), ("Prod", "y", ("cos", "B"))), True, False),
    (("Sum", ("sin", "any1"), ("cos", "any1")), ("Sum", ("Prod", 2, ("sin", "A")), ("Prod", 3, ("cos", "A"))), True, False),
    (("Sum", ("Prod", 2, ("sin", "any1")), ("cos", "any1")), ("Sum", ("sin", "A"), ("cos", "A")), True, False),
    (("Sum", ("sin", "any1"), ("cos", "any1")), ("Power", ("Sum", ("sin", "A"), ("cos", "B")), 2), False, False),
    (("Power", ("Sum", ("sin", "any1"), ("cos", "any1")), 2), ("Power", ("Sum", ("sin", "A"), ("cos", "B")), 2), False, False),
    (("Prod", 2, ("sin", "any1"), ("cos", "any1")), ("Prod", 6, ("sin", "A"), ("cos", "A")), True, False),
    (("Prod", "any1", ("sin", "any2")), ("Prod", "x", "y", ("sin", "A")), False, False),
    (("Prod", "any1", ("sin", "any2")), ("Prod", "x", 2, ("sin", "A")), False, False),
    (("Prod", "any1", ("sin", "any2")), ("sin", "A"), False, False),
    (("Prod", "any1", ("sin", "any1")), ("sin", "x"), False, False),
    (("Power", "e", "any1"), ("Power", "e", ("Prod", 2, "x")), False, False),
    (("Power", "any1", ("Prod", 2, "any2")), ("Power", "x", ("Prod", 4, "y")), False, False),
    (("Prod", 3, ("sin", "any1")), ("Prod", 2, ("sin", "A")), False, False),
    (("Prod", 3, ("sin", "any1")), ("Prod", 2, ("sin", "A")), True, False),
    (("log", "any1", "any2"), ("log", "A", "B"), False, False),
    (("log", ("sin", "any1"), "any1"), ("log", ("sin", "x"), "y"), False, False),
    (("Sum", "x", ("sin", "any1")), ("Sum", "y", ("sin", "A")), False, False),
    (("Prod", "x", ("sin", "any1")), ("Prod", "y", ("sin", "A")), False, False),
    (("Prod", ("Power", "x", -1), ("sin", "any1")), ("Prod", ("Power", "x", -1), ("sin", "A")), False, False),
]


def entries(deep=False):
    m, K = get_model(), kinds()
    f = next((f for f in m.funcs if f.cls is None and f.parent is None and f.name == "eq"), None)
    ANY = next((c for c in m.classes if c.name == "Any_"), None)
    if f is None or ANY is None:
        return []
    b = Builder()
    b.gen = K.by_name.get("acos", b.gen)  # opaque parts: of a kind no pattern looks into
    opts = b.options(concrete=True)
    opts["inline"] = opts["inline"] | {("name", "eq"), ("name", "get_anys"), ("construct", "Any_"), ("attr", "expandable"), ("attr", "expand"), ("attr", "_expand")}

    def anything(it, key):
        x = it.world.atom(frozenset([ANY]), "any")
        it.anys[x.uid] = x
        init = ANY.lookup("__init__")
        if init is None:
            x.f["key"] = x.f["_key"] = key if key is not None else f"key{x.uid}"
            return x
        it.call(it.bind(it.member(init[0], "__init__"), x, ANY), [key] if key is not None else [], {})
        return x

    def build_any(it, c, a, kw):
        if c is ANY:
            return anything(it, (a[0] if a else kw.get("key")) or None)
        return b.power_hook(it, c, a, kw)

    def text_of(it, v):
        # expressions that are the same have the same text, at any moment
        for i, u in enumerate(it.texts):
            if u.rep() is v.rep() or same(it, skeleton(it, u), skeleton(it, v)):
                return f"<{i}>"
        it.texts.append(v)
        return f"<{len(it.texts) - 1}>"

    def rnd(it, name, a, k):
        if name.split(".")[0] in ("random", "secrets", "uuid"):
            n = k.get("k", a[-1] if a and isinstance(a[-1], int) else 32)
            it.rnd = getattr(it, "rnd", 0xE000) + n
            s = [chr(it.rnd - n + i) for i in range(n)]
            return PList(s) if name.endswith(("choices", "sample")) else "".join(s)
        return b.sort_hook(it, name, a, k)

    opts.update(construct_hook=build_any, builtin_hook=rnd, repr_hook=text_of)

    def item(it, s):
        if isinstance(s, str) and s.startswith("any"):
            if s not in it.env:
                it.env[s] = anything(it, s)
            return it.env[s]
        if not isinstance(s, tuple):
            return b.item(it, s)
        xs = [item(it, v) for v in s[1:]]
        if s[0] in ("Sum", "Prod"):
            return b.build(it, m.cls(s[0]), xs)
        if s[0] == "Power":
            return it.castv(it.construct(b.Power, xs, {}, inline=True))
        c = K.by_name[s[0]]
        p = ExprV(it.world, frozenset([c]))
        for n, v in zip(K.fields[c], xs):
            p.f[n] = v
        return p

    out = []
    for q, e, uf, us in cases() + (MORE if deep else []):
        def go(it, q=q, e=e, uf=uf, us=us):
            b.start(it, True)
            it.anys, it.texts = {}, []
            qv, ev = item(it, q), item(it, e)
            if us and ev.rep().exact is not b.Sum:
                raise Done()  # terms of a sum are looked for in sums only
            keys = {it.dkey(it.getattr(it.anys[u], "key")): u for u in it.anys}
            try:
                r = it.call(it.func_value(f), [ev, qv], {"up_to_factor": uf, "up_to_sum": us})
            except Raised as x:
                if x.exc in INTERNAL:
                    return [Claim(T.ONE, T.ZERO, f"the comparison ends with {x.exc}")]
                raise
            if not isinstance(r, PDict):
                return []
            d = r.d
            if not it.truth(d.get(it.dkey("success"), False)):
                return []
            ms = d.get(it.dkey("matches"))
            if len(keys) == 1:
                ms = {next(iter(keys)): ms}
            elif isinstance(ms, PDict):
                ms = {k: v for k, v in ms.d.items()}
            else:
                return [Claim(T.ONE, T.ZERO, "every part of the pattern has a match")]
            t = qv.term()
            for k, u in keys.items():
                v = ms.get(k)
                if not isinstance(v, ExprV):
                    return [Claim(T.ONE, T.ZERO, "every part of the pattern is matched by one expression")]
                t = T.replace_leaf(t, {("a", u): v.term()})
            for flag, name in ((uf, "factor"), (us, "rest")):
                if flag:
                    v = d.get(it.dkey(name))
                    v = it.castv(v) if v is not None else None
                    if not isinstance(v, ExprV):
                        return [Claim(T.ONE, T.ZERO, f"the {name} is an expression")]
                    t = T.mul(v.term(), t) if name == "factor" else T.add(t, v.term())
            return [Claim(ev.term(), t, "the match, the factor and the rest make up the expression")]

        out.append(Entry(f"matching {text(q)} in {text(e)}{', up to a factor' if uf else ''}{', in a sum' if us else ''}", go, f, "identity", paths=150, secs=6, **opts))
    return out
