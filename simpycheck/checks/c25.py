"""C25: what pattern comparison reports makes up the expression; counting and searching find what is there."""
from ..model import get_model
from ..vflow import engine, match
from ..vflow import terms as T
from ..vflow.build import Builder, same, skeleton
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.values import ExprV, Native, PList

SHAPES = [
    ("Sum", ("Prod", "x", ("sin", "x")), ("Power", "x", 2), "y"),
    ("Prod", 3, ("Power", "x", "x"), ("cos", ("Prod", 2, "x"))),
    ("Power", ("Sum", "x", 1), ("Sum", "y", 1)),
    ("log", ("Sum", "x", "y"), "x"),
    ("sin", ("sin", ("Sum", "x", ("sin", "x")))),
    ("Prod", 2, "x"), ("Prod", -1, "x", "y"),
    ("Sum", ("sin", "x"), ("Prod", -1, ("sin", "x"), ("sin", "y")), ("Power", ("sin", "x"), 2)),
    ("Abs", ("Sum", "x", ("Prod", -1, "y"))),
    "x", "y", 2, ("Power", "x", 2), ("tan", ("Prod", "x", "y")), ("Prod", ("Power", "e", "x"), ("Power", "e", ("Power", "x", 2))),
]
QUERIES = ["x", "y", ("sin", "x"), ("Power", "x", 2), 2, -1, ("Prod", 2, "x"), ("Sum", "x", 1), "e", ("Sum", "x", "y"), ("sin", ("Sum", "x", ("sin", "x")))]
KINDS = ["Symbol", "sin", "Power", "Sum", "Prod", "log", "Rat", "Abs", "TrigFunction", "SingleFunc"]


def parts(it, x):
    """The operands of a built expression."""
    c = x.rep().exact
    if c in it.kinds.nums or c in it.kinds.consts or c.name == "Symbol":
        return []
    out = []
    for n in it.kinds.fields[c]:
        f = it.field(x.rep(), n)
        out += list(f.items) if isinstance(f, PList) else [f]
    return out


def outermost(it, x, test):
    return 1 if test(x) else sum(outermost(it, p, test) for p in parts(it, x))


def somewhere(it, x, test):
    return test(x) or any(somewhere(it, p, test) for p in parts(it, x))


def entries():
    m, K = get_model(), kinds()
    b = Builder()
    opts = b.options(concrete=True)
    names = ("count", "contains_cls", "general_count", "general_contains")
    opts["inline"] = opts["inline"] | {("name", n) for n in names}
    opts["inline"] = opts["inline"] | {("attr", n) for n in ("children",)}
    out = match.entries(deep=True)

    def where(n):
        return next((f for f in m.funcs if f.cls is None and f.parent is None and f.name == n), None)

    def build(it, s):
        """Like Builder.item, with powers made by their constructor."""
        if isinstance(s, tuple) and s[0] == "Power":
            return it.castv(it.construct(b.Power, [build(it, s[1]), build(it, s[2])], {}, inline=True))
        if isinstance(s, tuple) and s[0] in ("Sum", "Prod"):
            return b.build(it, m.cls(s[0]), [build(it, v) for v in s[1:]])
        if isinstance(s, tuple):
            p = ExprV(it.world, frozenset([K.by_name[s[0]]]))
            for n, v in zip(K.fields[K.by_name[s[0]]], s[1:]):
                p.f[n] = build(it, v)
            return p
        return b.item(it, s)

    def entry(name, f, go):
        out.append(Entry(name, go, f, "occurrences", paths=30, secs=3, **opts))

    def judged(got, want, what):
        ok = got is want if isinstance(want, bool) else not isinstance(got, bool) and got == want
        return [Claim(T.ONE, T.ONE if ok else T.ZERO, f"{what}: {want}")]

    for s in SHAPES:
        t = match.text(s)
        f = where("count")
        if f:
            def go(it, s=s, f=f):
                b.start(it, True)
                x = build(it, s)
                cs = []
                for q in QUERIES:
                    y = build(it, q)
                    sk = skeleton(it, y)
                    want = outermost(it, x, lambda v: v.rep().exact is y.rep().exact and same(it, skeleton(it, v), sk))
                    cs += judged(it.call(it.func_value(f), [x, y], {}), want, f"occurrences of {match.text(q)}")
                return cs

            entry(f"count in {t}", f, go)
        for n in names[1:]:
            f = where(n)
            if not f:
                continue

            def gok(it, s=s, f=f, n=n):
                b.start(it, True)
                x = build(it, s)
                cs = []
                for k in KINDS:
                    c = next((c for c in m.classes if c.name == k), None)
                    if c is None:
                        continue
                    below = K.sub(c)
                    test = lambda v, below=below: v.rep().exact in below
                    want = outermost(it, x, test) if n == "general_count" else somewhere(it, x, test)
                    arg = c if n == "contains_cls" else Native("a condition", lambda i, a, kw, test=test: test(a[0]))
                    r = it.call(it.func_value(f), [x, arg], {})
                    cs += judged(r if n == "general_count" else it.truth(r), want, f"{k}")
                return cs

            entry(f"{n} in {t}", f, gok)
    return out


def run(rep):
    return engine.check(
        rep, entries, 40,
        "Pattern comparison is interpreted (not assumed) on sums, products, powers and logarithms built around patterns, with unknown parts: whenever it succeeds, pattern with the matches put in, times the factor, plus the rest must have "
        "the value number of the expression. The counting and searching walkers are interpreted on built expressions of every kind and compared with the occurrences the structure has.",
        "a reported match makes up the expression; counts and searches agree with the structure")
