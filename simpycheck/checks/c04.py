"""C04: sums and products do not depend on operand order or grouping."""
import itertools
from fractions import Fraction as Q

from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.build import Builder, Key, rank, same, skeleton
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.values import Done, ExprV, NumV, PList, StrV, Undecided, as_term


def holds(ok, what, f=None):
    return Claim(T.ONE, T.ONE if ok else T.ZERO, what, loc=f.loc(f.node) if f is not None else None)


DEBUG = False


def entries():
    m, K = get_model(), kinds()
    out = []
    Sum, Prod, Power = m.cls("Sum"), m.cls("Prod"), m.cls("Power")
    B = Builder()

    def entry(name, go, f, rule="order and grouping", concrete=False, **kw):
        kw.setdefault("paths", 400)
        kw.setdefault("secs", 6)
        out.append(Entry(name, go, f, rule, **B.options(concrete), **kw))

    def group(it, cls, xs, how):
        """how: a nested tuple of positions."""
        if isinstance(how, int):
            return xs[how]
        return B.build(it, cls, [group(it, cls, xs, h) for h in how])

    def ways(n):
        """Orders and groupings."""
        if n > 4:
            r = tuple(range(n))
            return [r, r[::-1], r[n // 2:] + r[: n // 2], (r[: n // 2], r[n // 2:]), (r[0], r[1:]), (r[:-1], r[-1]), r[::2] + r[1::2]]
        perms = list(itertools.permutations(range(n))) if n <= 3 else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1), (1, 0, 3, 2), (0, 2, 1, 3), (3, 0, 2, 1)]
        out = [p for p in perms]
        if n == 3:
            out += [((a, b), c) for a, b, c in perms] + [(a, (b, c)) for a, b, c in perms]
        if n == 4:
            out += [((0, 1), (2, 3)), ((0, 2), (1, 3)), (((0, 1), 2), 3), (0, (1, (2, 3))), ((3, 1, 0), 2), (2, (0, 3, 1))]
        return out

    def describe(how, spec):
        if isinstance(how, int):
            return show(spec[how])
        return "(" + ", ".join(describe(h, spec) for h in how) + ")"

    def show(s):
        if isinstance(s, tuple):
            if s[0] in ("Power", "pow"):
                return f"{show(s[1])}^{show(s[2])}"
            return f"{s[0]}({', '.join(show(v) for v in s[1:])})"
        return str(s)

    def trivial(it, cls, t):
        x = t.rep()
        if x.exact is None:
            return False
        if x.exact.name in ("Rat", "Float"):
            return it.truth(it.equal(x, Q(0 if cls is Sum else 1)))
        if cls is Sum and x.exact is Prod:
            return any(u.rep().exact is not None and u.rep().exact.name in ("Rat", "Float") and it.truth(it.equal(u, Q(0))) for u in it.field(x, "terms").items)
        return False

    def invariant(cls, spec, concrete=False, only=None):
        f = next((k.members["__new__"][1] for k in cls.mro_classes() if "__new__" in k.members and k.members["__new__"][0] == "func"), None)
        name = f"{cls.name} of {', '.join(show(s) for s in spec)}"

        def go(it):
            B.start(it, concrete)
            first, cl = None, []
            ws = ways(len(spec))
            for w in ws:
                xs = [B.item(it, s) for s in spec]
                val = [x.term() for x in xs]
                r = group(it, cls, xs, w)
                if not isinstance(r, ExprV):
                    raise Undecided("result")
                k = skeleton(it, r)
                if first is None:
                    first, ts = k, []
                    cl.append(Claim(T.add(*val) if cls is Sum else T.mul(*val), r, "value", rule="value"))
                    if r.rep().exact is cls:
                        ts = it.field(r, "terms").items
                        cl.append(holds(not any(t.rep().exact is cls for t in ts), "nested operands are flattened", f))
                        low = [rank(it, t) for t in ts if rank(it, t) < 2]
                        cl.append(holds(len(low) <= 1, "the numbers are merged into one", f))
                    cl.append(holds(not any(trivial(it, cls, t) for t in ts), "terms that cancel vanish", f))
                    continue
                if not same(it, first, k):
                    cl.append(holds(False, "the same for every order and grouping", f))
                    cl[-1].note = f" {describe(w, spec)} differs from {describe(ws[0], spec)}"
                    if DEBUG:
                        print(cl[-1].note, first, k, sep="\n  ")
                    return cl
            cl.append(holds(True, "the same for every order and grouping", f))
            return cl

        entry(name, go, f, concrete=concrete)

    sums = [
        ("A", "B", "C"), ("A", "B"), ("A", "B", "C", "D"), ("q", "A", "p"), ("q", "A", 1.5), ("q", "p", "A", "B"), ("A", "q", "B"), (1.5, "A", -2.5),
        (("Prod", "q", "A"), "B", "A"), (("Prod", "q", "A"), ("Prod", "p", "A"), "B"), (("Prod", "q", "A"), ("Prod", "p", "B"), "C"), (("Prod", "q", "A", "B"), ("Prod", "p", "B", "A"), "C"),
        (("Prod", "A", "B"), ("Prod", "B", "C"), ("Prod", "p", "A", "C")), (("Prod", "q", "A"), "A", ("Prod", "p", "A"), "B"), ("pi", "q", "A"), (("Prod", "q", "pi"), "pi", "A"), (("Prod", "q", "pi"), "p", "A"),
        (("Prod", 1.5, "A"), ("Prod", "q", "A"), "B"), ("A", ("Prod", -1, "A"), "B"), (("Sum", "A", "B"), "C"), (("Sum", "A", "B"), ("Sum", "C", "A")), (("Sum", "A", ("Prod", -1, "B")), "B", "C"),
        (("Sum", "q", "A"), "p", "B"), (("Power", "A", "q"), "A", ("Power", "B", "p")), (("Power", "A", 2), ("Prod", 3, ("Power", "A", 2)), "A"), (("Prod", "q", ("Sum", "A", "B")), "A", "B"), ("x", "y", ("Prod", 2, "x"), "A"),
        ("x", ("Prod", 3, "x"), ("Power", "x", 2), 1), (("cos", "X"), ("sin", "X"), ("Prod", 2, ("cos", "X"))), ("e", "pi", "x"), (("Prod", "q", "x"), ("Prod", "p", "x"), ("Prod", "r", "x")), ("q", "p", "r"),
    ]
    prods = [
        ("A", "B", "C"), ("A", "B"), ("A", "B", "C", "D"), ("q", "A", "p"), ("q", "A", 1.5), ("q", "p", "A", "B"), ("A", "q", "B"), (1.5, "A", -2.5), ("q", "p", "r"),
        (("Power", "A", "q"), "B", "A"), (("Power", "A", "q"), ("Power", "A", "p"), "B"), (("Power", "A", "q"), ("Power", "B", "p"), "C"), (("Power", "A", -1), "A", "B"), (("Power", "A", -1), "B", "A", "C"),
        (("Prod", "A", "B"), "C"), (("Prod", "A", "B"), ("Prod", "C", "A")), (("Prod", "A", ("Power", "B", -1)), "B", "C"), (("Prod", "q", "A"), "p", "B"), ("pi", "q", "A"), (("Power", "pi", 2), "pi", "A"), ("e", "pi", "x"),
        (("Sum", "A", "B"), "C", "A"), (("Sum", "A", "B"), ("Sum", "B", "A"), "C"), (("Power", ("Sum", "A", "B"), "q"), ("Sum", "A", "B"), "C"), (3, ("Sum", "A", "B"), "C"), ("x", "y", ("Power", "x", 2), "A"),
        (("Power", "A", "B"), ("Power", "A", "C"), "D"), (("Power", "A", "X"), "A", "B"), (0, "A", "B"), ("A", 0, "q"), (("cos", "X"), ("sin", "X"), ("Power", ("cos", "X"), 2)), (("Power", "A", "q"), ("Power", "A", "p"), ("Power", "A", "r")),
    ]
    long = tuple(f"x{i}" for i in range(1, 9))
    sums += [long + ("x1",), ("q",) + long + (("Prod", 2, "x1"), "p"), long[:4] + (("Power", "x1", 2),) + long[4:] + (("Prod", -1, "x1"),)]
    prods += [long + ("x1",), ("q",) + long + (("Power", "x1", 2), "p"), long[:4] + (("Sum", "x1", "x2"),) + long[4:] + (("Power", "x1", -1),)]
    known = [  # numbers that meet their own roots, and -1 next to a sum
        (-1, ("Sum", "A", "B"), "C"), (2, ("pow", 2, Q(1, 2)), 3),
    ]
    whole = [  # powers of a number that come together to a number
        (("pow", 2, "x"), 5, ("pow", 2, ("Sum", ("Prod", -1, "x"), 1)), "y"), (("pow", 3, ("Sum", "x", 2)), 5, ("pow", 3, ("Prod", -1, "x"))), ("y", ("pow", 2, "x"), ("pow", 2, ("Prod", -1, "x")), 7),
    ]
    for s in sums:
        invariant(Sum, s)
    for s in prods:
        invariant(Prod, s)
    for s in whole:
        invariant(Prod, s, concrete=True)
    for s in known:
        invariant(Prod, s, concrete=isinstance(s[1], tuple) and s[1][0] == "pow")

    # ------------------------------------------------------------ the order itself
    for cls in (Sum, Prod):
        l = cls.lookup("_sort_terms")
        if not l or l[1][0] != "func":
            continue
        f = l[1][1]

        def comparator(it, cls=cls):
            found = []

            def hook(name, a, k):
                if name.split(".")[-1] == "cmp_to_key":
                    found.append(a[0])
                    return Key(a[0])
                if name.split(".")[-1] == "sorted":
                    return PList(list(it.iterate(a[0])))
                return NotImplemented

            it.capture = hook
            xs = [it.world.atom(label=n) for n in "ABC"]
            for i, x in enumerate(xs):
                for y in xs[:i]:
                    if it.truth(it.equal(x, y)):
                        raise Done()
            it.call(it.bind(it.member(*cls_member(cls)), None, cls), [PList(xs)], {})
            it.capture = None
            if not found:
                raise Undecided("no comparator")
            return found[0], xs

        def cls_member(cls):
            o, mem = cls.lookup("_sort_terms")
            return o, "_sort_terms"

        def capture(it, name, a, k):
            if name == "len" and len(a) == 1 and isinstance(a[0], StrV):
                # the length of a text that depends on a term: open, but fixed for the text
                key = ("len", a[0].parts)
                if key not in it.measures:
                    it.measures[key] = it.world.number("int", "len(...)")
                return it.measures[key]
            h = getattr(it, "capture", None)
            return h(name, a, k) if h else NotImplemented

        def measure(it, fn, a, k):
            """A measure of one term (an annotated int) is left open, but fixed for the term."""
            g = fn.func
            xs = list(a) + list(k.values())
            ann = getattr(getattr(g.node, "returns", None), "id", None)
            if len(xs) == 1 and isinstance(xs[0], ExprV) and ann in ("int", "float", "bool"):
                key = (g.node.lineno, g.name, id(xs[0].rep()))
                if key not in it.measures:
                    it.measures[key] = it.world.number("int" if ann != "float" else "float", f"{g.name}({xs[0].label})")
                return it.measures[key]
            return NotImplemented

        def sign(it, key, x, y):
            r = it.call(key, [x, y], {})
            if isinstance(r, bool) or not isinstance(r, (int, float, Q, NumV)):
                if isinstance(r, bool):
                    r = int(r)
                else:
                    raise Undecided("comparison result")
            t = as_term(r)
            if it.truth(it.cmp_terms("<", t, T.ZERO)):
                return -1
            return 0 if it.truth(it.cmp_terms("==", t, T.ZERO)) else 1

        def anti(it, comparator=comparator, f=f):
            it.measures = {}
            key, (a, b, c) = comparator(it)
            p, q = sign(it, key, a, b), sign(it, key, b, a)
            return [holds(p != 0 and q != 0, "different terms are never tied", f), holds(p == -q, "the two directions of a comparison agree", f)]

        def trans(it, comparator=comparator, f=f):
            it.measures = {}
            key, (a, b, c) = comparator(it)
            p, q = sign(it, key, a, b), sign(it, key, b, c)
            if p == 0 or q == 0 or p != q:
                raise Done()
            return [holds(sign(it, key, a, c) == p, "the comparison is transitive", f)]

        for nm, go in (("antisymmetric and without ties", anti), ("transitive", trans)):
            out.append(Entry(f"order of {cls.name} terms: {nm}", go, f, "term order", paths=1500, secs=15, max_rec=6, builtin_hook=capture, call_hook=measure, no_side=True))
    return out


def run(rep):
    return engine.check(
        rep, entries, 10,
        "The constructors of Sum and Prod are interpreted on operand lists of many shapes (unknown terms, numbers, coefficients, powers, nested sums and products), for every order of up to three operands, many of four, and all bracketings; "
        "within each partition all results must be the same expression, flattened, with one number, and denote the sum or product. The comparison used for sorting is interpreted on three unknown different terms: never tied, antisymmetric, transitive.",
        "same canonical expression for every order and grouping")
