"""C08: substitution, replacement and numeric evaluation reach every operand of every kind of expression."""
import math

from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import PropV, kinds
from ..vflow.values import ExprV, FuncV, Infeasible, Native, NumV, PDict, PList, Undecided, as_term


def parts(it, x):
    """The operands of x (its kind is exact)."""
    K = it.kinds
    out = []
    for n in K.fields[x.rep().exact]:
        v = it.field(x, n)
        if isinstance(v, PList):
            out.extend(v.items)
        elif isinstance(v, ExprV):
            out.append(v)
    return out


def rebuilt(it, x, f):
    """Value of the same kind of expression over processed operands."""
    K = it.kinds
    if not parts(it, x):
        return x.term()

    def get(n):
        v = it.field(x, n)
        return [f(i) for i in v.items] if isinstance(v, PList) else f(v) if isinstance(v, ExprV) else as_term(v)

    return K.sem_fields(x.rep().exact, get, it.world)


def entries():
    m, K = get_model(), kinds()
    out = []

    def meth(c, n):
        l = c.lookup(n)
        return l[1][1] if l and l[1][0] == "func" else None

    def module_func(n):
        return next((f for f in m.funcs if f.cls is None and f.parent is None and f.name == n), None)

    for c in sorted(K.universe, key=lambda c: c.name):
        for n in ("subs", "_evalf", "evalf"):
            l = c.lookup(n)
            if not l:
                continue

            def go(it, c=c, l=l, n=n, cases=None, empty=False):
                s, t = it.world.symbol("s"), it.world.symbol("t")
                x = it.world.atom([c], "e")
                if c.name == "Symbol":
                    x = (s, t, it.world.symbol("other"))[cases]
                    if cases == 2:
                        it.world.fact("eq", (x.term(), s.term()), False)
                        it.world.fact("eq", (x.term(), t.term()), False)
                u, v = it.world.atom(label="u"), it.world.atom(label="v")
                for y in (s, t):
                    it.world.var(y.uid)
                d = PDict() if empty else PDict([(it.dkey(it.getattr(s, "name")), u), (it.dkey(it.getattr(t, "name")), v)])
                pairs = () if empty else (("at", ((s.term(), u.term()), (t.term(), v.term()))),)
                if c.name == "Symbol" and cases == 2:
                    exp = x.term()
                elif empty:
                    exp = x.term()
                elif c.name == "Symbol":
                    exp = (u, v)[cases].term()
                else:
                    exp = ("at", x.term(), pairs[0][1])
                if n == "evalf" and empty:
                    r = it.call(it.bind(it.member(l[0], n), x, c), [], {})
                else:
                    r = it.call(it.bind(it.member(l[0], n), x, c), [d], {})
                return [Claim(exp, r)]

            neg = 0.2
            inl = frozenset()
            if c.name == "Symbol":
                for i, nm in enumerate(("first variable", "second variable", "another variable")):
                    out.append(Entry(f"{c.name}.{n} ({nm})", lambda it, go=go, i=i: go(it, cases=i), meth(c, n), "substitution", negative=neg, inline=inl))
            else:
                out.append(Entry(f"{c.name}.{n}", go, meth(c, n), "substitution", negative=neg, inline=inl))
            # plain numbers as values, by position and by name: expressions come back
            if n != "_evalf" and c.name != "Symbol" or n == "subs":
                for kw in (False, True):

                    def gok(it, c=c, l=l, n=n, kw=kw):
                        s = it.world.symbol("s")
                        it.world.var(s.uid)
                        x = s if c.name == "Symbol" else it.world.atom([c], "e")
                        d = PDict([(it.dkey(it.getattr(s, "name")), 3)])
                        h = it.bind(it.member(l[0], n), x, c)
                        r = it.call(h, [], {"subs": d}) if kw else it.call(h, [d], {})
                        if not isinstance(r, ExprV):
                            return [Claim(T.ONE, T.ZERO, "an expression comes back")]
                        return [Claim(("at", x.term(), ((s.term(), T.q(3)),)), r)]

                    out.append(Entry(f"{c.name}.{n} of a plain number {'by name' if kw else 'by position'}", gok, meth(c, n), "substitution", negative=neg, inline=inl))
            if n != "subs":
                out.append(Entry(f"{c.name}.{n} without values", lambda it, go=go: go(it, empty=True, cases=0), meth(c, n), "substitution", negative=neg, inline=inl))

    # the numbers that named constants stand for
    named = {"Pi": math.pi, "E": math.e, "Infinity": math.inf, "NegInfinity": -math.inf}
    for c in sorted(K.concrete, key=lambda c: c.name):
        if c.name not in named or not c.lookup("value"):
            continue

        def gov(it, c=c):
            owner, mem = c.lookup("value")
            v = it.member(owner, "value")
            if isinstance(v, PropV) or isinstance(v, FuncV):
                v = it.bind(v, it.construct(c, [], {}), c)
            if isinstance(v, NumV):
                return [Claim(K.const_term(c), v, "value of the constant")]
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                raise Undecided("value of a constant")
            return [Claim(T.ONE, T.ONE if v == named[c.name] else T.ZERO, f"stands for the floating-point number nearest to the constant ({v!r})", loc=c.loc() if hasattr(c, "loc") else None)]

        out.append(Entry(f"{c.name}.value", gov, meth(c, "value"), "constant"))

    # what counts as a part: children, contains, symbols
    for c in sorted(K.universe, key=lambda c: c.name):
        l = c.lookup("children")
        if l:
            def goc(it, c=c, l=l):
                x = it.world.atom([c], "e")
                want = parts(it, x)
                r = it.call(it.bind(it.member(l[0], "children"), x, c), [], {})
                got = [y.rep() for y in it.iterate(r)]
                ok = len(got) == len(want) and all(any(g is w.rep() for g in got) for w in want)
                return [Claim(T.ONE, T.ONE if ok else T.ZERO, "lists every operand once")]

            out.append(Entry(f"{c.name}.children", goc, meth(c, "children"), "operands"))
        l = c.lookup("contains")
        if l:
            def gok(it, c=c, l=l):
                x = it.world.atom([c], "e")
                v = it.world.symbol("x")
                it.world.var(v.uid)
                want = parts(it, x)
                r = it.truth(it.call(it.bind(it.member(l[0], "contains"), x, c), [v], {}))
                known = []
                for p in want:
                    p = p.rep()
                    if p is v.rep():
                        known.append(True)
                    elif p.classes <= K.nums:
                        known.append(False)
                    else:
                        known.append(it.world.lits.get(("contains", p.term(), v.rep().uid)))
                same = x.rep() is v.rep() or c.name == "Symbol" and it.truth(it.equal(x, v))
                ok = (same or True in known) if r else not same and all(k is False for k in known)
                return [Claim(T.ONE, T.ONE if ok else T.ZERO, "holds exactly when some operand contains the variable")]

            out.append(Entry(f"{c.name}.contains", gok, meth(c, "contains"), "operands"))

        l = c.lookup("has")
        if l:
            def goh(it, c=c, l=l):
                x = it.world.atom([c], "e")
                want, k = parts(it, x), K.by_name["tan"]
                it.root = x
                r = it.truth(it.call(it.bind(it.member(l[0], "has"), x, c), [k], {}))
                known = []
                for p in want:
                    p = p.rep()
                    known.append(True if p.exact is k else it.world.lits.get(("has", p.term(), k.name), False if k not in p.classes and all(not K.fields[q] or q in K.nums for q in p.classes) else None))
                same = c is k
                ok = (same or True in known) if r else not same and all(q is False for q in known)
                return [Claim(T.ONE, T.ONE if ok else T.ZERO, "holds exactly when the kind occurs")]

            out.append(Entry(f"{c.name}.has", goh, meth(c, "has"), "operands"))
        l = c.lookup("symbols")
        if l:
            def gos(it, c=c, l=l):
                x = it.world.atom([c], "e")
                want = []
                for p in parts(it, x):
                    for y in it.iterate(it.call_method(p, "symbols", [], {})):
                        if not any(y.rep() is z for z in want):
                            want.append(y.rep())
                if c.name == "Symbol":
                    want = [x.rep()]
                r = it.call(it.bind(it.member(l[0], "symbols"), x, c), [], {})
                got = [y.rep() for y in it.iterate(r)]
                want = [w for i, w in enumerate(want) if not any(w.rep() is v.rep() for v in want[:i])]
                ok = all(any(g.rep() is w.rep() for g in got) for w in want) and all(any(g.rep() is w.rep() for w in want) for g in got)
                return [Claim(T.ONE, T.ONE if ok else T.ZERO, "collects the symbols of every operand")]

            out.append(Entry(f"{c.name}.symbols", gos, meth(c, "symbols"), "operands"))

    def without(it, y):
        """None of the kinds replaced by the replace_class obligation occurs in y on this path."""
        y = y.rep()
        if not K.fields[y.exact] if y.exact else y.classes <= K.nums:
            return True
        return all(k not in y.classes and it.world.lits.get(("has", y.term(), k.name)) is False for k in K.set("sin", "tan"))

    # walkers: replace_factory(cond, perform), kinder_replace, kinder_replace_many, replace, replace_class
    def walker_hook(state):
        def hook(it, f, args, kw):
            if state.get("root") is None or not args or not isinstance(args[0], ExprV):
                return NotImplemented
            y = args[0].rep()
            if f.func in it.stack and y is not state["root"].rep():
                if not any(y is p.rep() for p in state["parts"]):
                    raise Undecided("walks something else than an operand")
                if f.func.name == "replace_class" and state["same"](it, y):
                    return y
                return state["rho"](y)
            return NotImplemented

        return hook

    def walker(name, run, rule="replacement", walked=None):
        f = module_func(name)
        if f is None:
            return
        for c in sorted(K.universe, key=lambda c: c.name):
            state = {}

            def go(it, c=c, f=f, state=state):
                state.clear()
                x = it.world.atom([c], "e")
                memo = {}

                def rho(y):
                    k = id(y.rep())
                    if k not in memo:
                        memo[k] = (it.world.atom(label=f"new({it.world.name(y.uid) if y.uid else '?'})"), y)
                    return memo[k][0]

                state.update(same=without, root=x, parts=parts(it, x), rho=rho)
                return run(it, f, x, c, lambda: rebuilt(it, x, lambda y: rho(y).term()), rho)

            out.append(Entry(f"{name} on {c.name}", go, f, rule, negative=0.2, call_hook=walker_hook(state), paths=120,
                             inline=frozenset([("name", name), ("name", "kinder_replace"), ("name", "kinder_replace_many"), ("name", "replace_factory"), ("name", "replace_factory_list"), ("name", "replace"), ("name", "replace_class")])))

    def run_factory(it, f, x, c, whole, rho):
        hit = it.world.atom(label="performed")
        which = {}

        def cond(i, a, k):
            which["cond"] = i.choose(2, "condition") == 1 if a[0].rep() is x.rep() else False
            return which["cond"]

        w = it.call(it.func_value(f), [Native("cond", cond), Native("perform", lambda i, a, k: hit)], {})
        r = it.call(w, [x], {})
        return [Claim(hit.term() if which.get("cond") else whole(), r)]

    walker("replace_factory", run_factory)

    def run_factory_list(it, f, x, c, whole, rho):
        hits = [it.world.atom(label=f"performed{i}") for i in range(2)]
        which = {}

        def cond(n):
            def g(i, a, k):
                r = i.choose(2, "condition") == 1 if a[0].rep() is x.rep() else False
                if r:
                    which.setdefault("cond", n)
                return r

            return Native("cond", g)

        w = it.call(it.func_value(f), [PList([cond(0), cond(1)]), PList([Native("perform", lambda i, a, k, n=n: hits[n]) for n in range(2)])], {})
        r = it.call(w, [x], {})
        return [Claim(hits[which["cond"]].term() if "cond" in which else whole(), r)]

    walker("replace_factory_list", run_factory_list)

    def run_kinder(many):
        def run(it, f, x, c, whole, rho):
            hit = it.world.atom(label="performed")
            which = {}

            def perform(i, a, k):
                n = i.choose(3, "perform")
                which["r"] = n
                return (None, hit, False)[n]

            p = Native("perform", perform)
            kw = {}
            if it.choose(2, "condition given") == 1:
                kw["overarching_cond"] = Native("cond", lambda i, a, k: which.setdefault("over", i.choose(2, "overarching") == 0))
            if it.choose(2, "verbose") == 1:
                kw["verbose"] = True
            r = it.call(it.func_value(f), [x, PList([p]) if many else p], kw)
            if kw.get("verbose"):
                r = r[0]
            stop = which.get("over") is False or which.get("r") == 2
            return [Claim(x.term() if stop else hit.term() if which.get("r") == 1 else whole(), r)]

        return run

    walker("kinder_replace", run_kinder(False))
    walker("kinder_replace_many", run_kinder(True))

    def run_replace(it, f, x, c, whole, rho):
        old, new = it.world.atom(label="old"), it.world.atom(label="new")
        key = it.truth(it.equal(x, old))
        r = it.call(it.func_value(f), [x, old, new], {})
        return [Claim(new.term() if key else whole(), r)]

    walker("replace", run_replace)

    def run_class(it, f, x, c, whole, rho):
        cs = [K.by_name["sin"], K.by_name["tan"]]
        memo = {}

        whole = lambda: rebuilt(it, x, lambda y: y.term() if without(it, y) else rho(y).term())

        def fn(n):
            def g(i, a, k):
                key = (n, id(a[0].rep()))
                if key not in memo:
                    memo[key] = (i.world.atom(label=f"f{n}"), a[0])
                return memo[key][0]

            return Native("newfunc", g)

        r = it.call(it.func_value(f), [x, PList(cs), PList([fn(0), fn(1)])], {})
        if x.rep().exact in cs:
            inner = parts(it, x)[0]
            inner = inner if without(it, inner) else rho(inner)
            for (n, i), (v, a) in memo.items():
                if n == cs.index(x.rep().exact) and a.rep() is inner.rep():
                    return [Claim(v.term(), r)]
            return [Claim(T.ONE, T.ZERO, "applies the replacement to the processed operand")]
        if isinstance(r, ExprV) and r.rep() is x.rep():
            ps = parts(it, x)
            has = [it.world.lits.get(("has", x.term(), k.name)) for k in cs]
            if ps and True in has:
                return [Claim(whole(), r)]
            return [Claim(x.term(), r)]
        return [Claim(whole(), r)]

    walker("replace_class", run_class)
    return out


def run(rep):
    return engine.check(
        rep, entries, 60,
        "subs, _evalf and evalf of every kind are interpreted abstractly on an arbitrary object and a substitution of two variables by arbitrary expressions: the returned value number must be the "
        "object's value number with the variables replaced simultaneously. children and contains of every kind must account for every operand. Every replacement walker is interpreted on every kind with "
        "an arbitrary condition and replacement: where the condition fails, the result must be the same kind over all processed operands.",
        "substitution, evaluation and replacement are homomorphic over every operand of every kind")
