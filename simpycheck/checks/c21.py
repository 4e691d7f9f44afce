"""C21: equality of expressions is an equivalence that takes every defining part into account; so is equality up to a variable."""
import ast
import itertools

from ..astutil import own_nodes, resolve
from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.values import BoolV, Done, ExprV, NumV, ObjV, Opaque, PDict, PList, Raised, StrV, Undecided, as_term


def holds(ok, what, f=None):
    return Claim(T.ONE, T.ONE if ok else T.ZERO, what, loc=f.loc(f.node) if f is not None else None)


def eq_option(c):
    v = c.dataclass_opts.get("eq", True)
    return v is not False


def effective(c, name="__eq__"):
    """('own', class) | ('generated', class) | None for the __eq__ a class ends up with."""
    for k in c.mro_classes():
        m = k.members.get(name)
        if m is not None and m[0] != "ann":
            return "own", k
        if name == "__eq__" and k.is_dataclass and eq_option(k):
            return "generated", k
    return None


def compared(k):
    """Fields the generated equality of dataclass k compares."""
    out = []
    for n, ann, default, owner in k.dataclass_fields():
        if isinstance(default, ast.Call) and getattr(default.func, "id", getattr(default.func, "attr", "")) == "field":
            if any(a.arg == "compare" and isinstance(a.value, ast.Constant) and a.value.value is False for a in default.keywords):
                continue
        out.append(n)
    return out


def structure(rep, K):
    """Generated equalities compare all defining fields; no kind compares by identity; hashes do not use identity."""
    m = get_model()
    for c in sorted(K.concrete, key=lambda c: c.name):
        rep.count("kinds")
        e = effective(c)
        if e is None:
            rep.find("equality", c.name, c.loc() if hasattr(c, "loc") else "", f"objects of kind {c.name} are compared by identity: equal expressions of that kind differ")
            continue
        if e[0] == "generated":
            missing = [n for n in K.fields[c] if n not in compared(e[1]) and not (n == "value" and c in K.consts)]
            if missing:
                rep.find("equality", c.name, f"{e[1].module.path if hasattr(e[1].module, 'path') else ''}:{e[1].node.lineno}", f"the equality generated for {e[1].name} does not compare {', '.join(missing)} of {c.name}")
            rep.sample(f"{c.name}: generated at {e[1].name}, compares {compared(e[1])}")
        else:
            rep.sample(f"{c.name}: written at {e[1].name}")
        h = effective(c, "__hash__")
        if h and h[0] == "own":
            mem = h[1].members["__hash__"]
            mro = c.mro_classes()
            # a class that defines equality without a hash has none, whatever its bases say
            if mro.index(h[1]) > mro.index(e[1]):
                continue
            node = mem[1].node if mem[0] == "func" else mem[1]
            for n in ast.walk(node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "id" or isinstance(n, ast.Attribute) and n.attr == "__hash__" and not (isinstance(n.value, ast.Name) and m.cls(n.value.id)):
                    f = mem[1] if mem[0] == "func" else None
                    rep.find("equality", f"{c.name}.__hash__", f.loc(n) if f else "", f"the hash of {c.name} depends on the object's identity: equal expressions have different hashes")
                    break


def entries():
    m, K = get_model(), kinds()
    out = []
    num = K.nums

    def entry(name, go, f, rule="equality", **kw):
        kw.setdefault("paths", 200)
        out.append(Entry(name, go, f, rule, secs=5, max_rec=6, **kw))

    def member_func(k, name):
        mem = k.members[name]
        if mem[0] == "func":
            return mem[1]
        if mem[0] == "assign" and isinstance(mem[1], ast.Attribute) and isinstance(mem[1].value, ast.Name):
            o = m.cls(mem[1].value.id)
            l = o.lookup(mem[1].attr) if o else None
            if l and l[1][0] == "func":
                return l[1][1]
        return None

    def make(it, c, label):
        x = it.world.atom(frozenset([c]), label)
        if c.name == "Symbol":
            return it.world.symbol(label)
        for n in K.fields[c]:
            it.field(x, n)
        return x

    def value(it, x):
        return K.const_term(x.exact) if x.exact in K.consts else as_term(it.field(x, "value"))

    def as_bool(it, r):
        if r is NotImplemented:
            return False
        if isinstance(r, bool):
            return r
        if isinstance(r, BoolV):
            return it.truth(r)
        raise Undecided(f"comparison returns {type(r).__name__}")

    def judged(it, call, want, f):
        """want(): the right answer."""
        try:
            r = as_bool(it, call())
        except Raised as err:
            return [holds(False, f"comparison never raises ({err.exc})", f)]
        if any(isinstance(k, tuple) and k and k[0] in ("streq", "opq") for k in it.world.lits):
            raise Undecided("comparison of texts")
        w = want()
        if isinstance(w, tuple):
            return [Claim(w, T.ONE if r else T.ZERO, "comparison", loc=f.loc(f.node))]
        return [holds(r == w, "the comparison takes exactly the kind and all defining parts into account", f)]

    def eq_fields(it, x, y):
        return all(it.truth(it.equal(it.field(x, n), it.field(y, n))) for n in K.fields[x.exact])

    FOREIGN = {
        "None": lambda it: None, "a text": lambda it: "text", "an empty list": lambda it: PList([]), "a list": lambda it: PList([it.world.atom(label="i")]),
        "a tuple": lambda it: (1, 2), "an int": lambda it: it.world.number("int", "n"), "a Fraction": lambda it: it.world.number("frac", "q"), "a float": lambda it: it.world.number("float", "v"),
        "a dict": lambda it: PDict({}) if PDict else None, "a bool": lambda it: True,
    }
    done = {}
    for c in sorted(K.universe, key=lambda c: c.name):
        e = effective(c)
        if not e or e[0] != "own":
            continue
        f = member_func(e[1], "__eq__")
        if f is None:
            continue
        kk = e[1]

        def comp(it, x, y, c=c, kk=kk):
            return it.call(it.bind(it.member(kk, "__eq__"), x, c), [y], {})

        for d in sorted(K.universe, key=lambda c: c.name):
            def go(it, c=c, d=d, comp=comp, f=f):
                x, y = make(it, c, "a"), make(it, d, "b")
                if d is c:
                    want = (lambda: ("eqv", value(it, x), value(it, y))) if c in num else lambda: eq_fields(it, x, y)
                elif c in num and d in num:
                    want = lambda: ("eqv", value(it, x), value(it, y))
                else:
                    want = lambda: False
                return judged(it, lambda: comp(it, x, y), want, f)

            entry(f"{c.name} == {d.name}", go, f)
        for lab, mkf in FOREIGN.items():
            def gof(it, c=c, mkf=mkf, lab=lab, comp=comp, f=f):
                x = make(it, c, "a")
                y = mkf(it)
                number = isinstance(y, NumV) and c in num
                if y is True:
                    try:
                        as_bool(it, comp(it, x, y))
                    except Raised as err:
                        return [holds(False, f"comparison never raises ({err.exc})", f)]
                    return [holds(True, "answers")]
                return judged(it, lambda: comp(it, x, y), (lambda: ("eqv", value(it, x), as_term(y))) if number else (lambda: False), f)

            entry(f"{c.name} == {lab}", gof, f)
        if c.name == "Symbol":
            def gos(it, c=c, comp=comp, f=f):
                names = ["x", "X", "y", "xy", "yx", "x_1", "x1", "x ", "\u03b1"]
                objs = [it.construct(c, [n], {}) for n in names]
                out = []
                for (n, p), (o, q) in itertools.product(zip(names, objs), zip(names, objs)):
                    try:
                        if as_bool(it, comp(it, p, q)) != (n == o):
                            out.append(holds(False, f"symbols named {n!r} and {o!r} are {'equal' if n == o else 'different'}", f))
                    except Raised as err:
                        out.append(holds(False, f"comparison never raises ({err.exc})", f))
                return out[:3] or [holds(True, "symbols are equal exactly when their names are")]

            entry("Symbol == Symbol, particular names", gos, f, paths=20)
        n = effective(c, "__ne__")
        if n:
            g = member_func(n[1], "__ne__")
            for d in sorted(K.universe, key=lambda c: c.name):
                def gon(it, c=c, d=d, nk=n[1], comp=comp, g=g):
                    x, y = make(it, c, "a"), make(it, d, "b")
                    return judged(it, lambda: it.call(it.bind(it.member(nk, "__ne__"), x, c), [y], {}), lambda: not as_bool(it, comp(it, x, y)), g)

                if g is not None:
                    entry(f"{c.name} != {d.name}", gon, g)
    anyc = next((c for c in m.classes if c.name == "Any_" and effective(c)), None)
    if anyc is not None and effective(anyc)[0] == "own" and member_func(effective(anyc)[1], "__eq__") is not None:
        fa, ka = member_func(effective(anyc)[1], "__eq__"), effective(anyc)[1]

        def goany(it):
            names = ["a", "A", "ab", "ba", "factor_1", "factor_2", "factor_12", "a "]
            objs = [it.construct(anyc, [n], {}) for n in names]
            out = []
            for (n, p), (o, q) in itertools.product(zip(names, objs), zip(names, objs)):
                try:
                    if as_bool(it, it.call(it.bind(it.member(ka, "__eq__"), p, anyc), [q], {})) != (n == o):
                        out.append(holds(False, f"placeholders named {n!r} and {o!r} are {'equal' if n == o else 'different'}", fa))
                except Raised as err:
                    out.append(holds(False, f"comparison never raises ({err.exc})", fa))
            x = it.construct(K.by_name["Symbol"], ["a"], {})
            if as_bool(it, it.call(it.bind(it.member(ka, "__eq__"), objs[0], anyc), [x], {})):
                out.append(holds(False, "a placeholder differs from a variable", fa))
            return out[:3] or [holds(True, "placeholders are equal exactly when their names are")]

        entry("Any_ == Any_, particular names", goany, fa, paths=20)
    for f in m.funcs:
        if f.name == "eq_with_var" and f.cls is None and f.parent is None:
            variable_entries(f, entry, make)
    return out


def variable_entries(f, entry, make):
    m, K = get_model(), kinds()

    def mentions(v, reps):
        if isinstance(v, ExprV):
            return {v.rep()} & reps
        if isinstance(v, (tuple, list)):
            return set().union(*[mentions(x, reps) for x in v]) if v else set()
        if isinstance(v, PList):
            return mentions(tuple(v.items), reps)
        return set()

    def parts(it, x):
        out = []
        for n in K.fields[x.exact]:
            v = it.field(x, n)
            out += list(v.items) if isinstance(v, PList) else [v] if isinstance(v, ExprV) else []
        return out

    def hook(it, fn, a, k):
        """The comparison of two parts is given: same up to the variable, or not."""
        if not getattr(it, "sides", None):
            return NotImplemented
        every = tuple(a) + tuple(k.values())
        l, r = mentions(every, it.sides[0]), mentions(every, it.sides[1])
        if len(l) == 1 and len(r) == 1:
            p, q = next(iter(l)), next(iter(r))
            key = (p.uid, q.uid)
            if key not in it.verdict:
                it.verdict[key] = it.choose(2, "parts agree") == 0
            it.pairs.append((p, q))
            return it.verdict[key]
        return NotImplemented

    def run(it, a, x, b, y):
        r = it.call(it.func_value(f), [(a, x), (b, y)], {})
        if isinstance(r, BoolV):
            return it.truth(r)
        if not isinstance(r, bool):
            raise Undecided("comparison")
        return r

    # compound expressions: the parts decide
    compound = [c for c in sorted(K.universe, key=lambda c: c.name) if K.fields[c] and c not in K.nums and c.name != "Symbol"]
    for c in compound:
        for d in sorted(K.universe, key=lambda c: c.name):
            def go(it, c=c, d=d):
                it.verdict, it.pairs, it.sides = {}, [], None
                x, y = it.world.symbol("x"), it.world.symbol("y")
                a, b = make(it, c, "a"), make(it, d, "b")
                pa, pb = parts(it, a), parts(it, b) if d not in K.nums and d.name != "Symbol" else []
                it.sides = ({p.rep() for p in pa}, {p.rep() for p in pb})
                if it.sides[0] & it.sides[1]:
                    raise Done()
                try:
                    r = run(it, a, x, b, y)
                except Raised as err:
                    return [holds(False, f"comparison up to a variable never raises ({err.exc})", f)]
                if c is not d:
                    return [holds(not r, "different kinds are different", f)]
                if any(k and isinstance(k, tuple) and k[0] in ("streq", "opq") for k in it.world.lits):
                    raise Undecided("comparison of texts")
                if len(pa) != len(pb):
                    return [holds(not r, "a different number of parts is different", f)]
                known = [it.verdict.get((p.rep().uid, q.rep().uid)) for p, q in zip(pa, pb)]
                if r:
                    return [holds(all(v is True for v in known), "equal only if every part is", f)]
                return [holds(any(v is False for v in known), "different only if some part is", f)]

            entry(f"eq_with_var on {c.name} and {d.name}", go, f, "equality up to a variable", call_hook=hook, k_list=(2, 3))

    # leaves, and leaves inside a compound one
    names = ["u", "v", "w"]

    def sym(it, n):
        return it.construct(m.cls("Symbol"), [n], {})

    def leaf(it, spec):
        return sym(it, spec) if isinstance(spec, str) else it.world.rat(spec) if not isinstance(spec, tuple) else compose(it, spec)

    def compose(it, spec):
        x = ExprV(it.world, frozenset([K.by_name[spec[0]]]))
        if spec[0] in ("Sum", "Prod"):
            x.f["terms"] = PList([leaf(it, s) for s in spec[1:]])
        else:
            for n, s in zip(K.fields[K.by_name[spec[0]]], spec[1:]):
                x.f[n] = leaf(it, s)
        return x

    def renamed(spec, var):
        if isinstance(spec, tuple):
            return (spec[0],) + tuple(renamed(s, var) for s in spec[1:])
        return ("the variable",) if spec == var else spec

    from fractions import Fraction as Q

    leaves = names + [Q(2), Q(3)]
    deep = [("Power", "u", Q(2)), ("Power", "v", Q(2)), ("Power", "v", "u"), ("Power", "u", "v"), ("Sum", "u", "v"), ("Sum", "v", "w"), ("Prod", "u", "w"), ("Prod", "v", "w"), ("Sum", "u", "v", "w"), ("sin", "u"), ("sin", "v"), ("cos", "u"),
            ("sin", ("Sum", "u", "w")), ("sin", ("Sum", "v", "w")), ("log", "u", Q(2)), ("log", "v", Q(2)), ("log", "u", Q(3)), ("Sum", ("Power", "u", Q(2)), "u"), ("Sum", ("Power", "v", Q(2)), "v"), ("Sum", ("Power", "v", Q(2)), "u")]
    for va, vb in itertools.product(names[:2], names[:2]):
        for group, specs in (("leaves", leaves), ("small expressions", deep)):
            def gol(it, va=va, vb=vb, specs=specs):
                it.sides = None
                out = []
                for p, q in itertools.product(specs, specs):
                    if not all(K.by_name.get(s[0]) in K.universe for s in (p, q) if isinstance(s, tuple)):
                        continue
                    try:
                        r = run(it, leaf(it, p), sym(it, va), leaf(it, q), sym(it, vb))
                    except Raised as err:
                        out.append(holds(False, f"comparison up to a variable never raises ({err.exc})", f))
                        continue
                    want = renamed(p, va) == renamed(q, vb)
                    if r != want:
                        out.append(holds(False, f"{p} in {va} and {q} in {vb} are {'the same' if want else 'different'} up to the variable", f))
                        if len(out) > 2:
                            return out
                return out or [holds(True, "equal exactly when both agree after renaming the variable")]

            entry(f"eq_with_var on {group}, variables {va} and {vb}", gol, f, "equality up to a variable", paths=20)


def run(rep):
    structure(rep, kinds())
    return engine.check(
        rep, entries, 6,
        "For every kind the equality it ends up with is determined (written or generated); generated ones must compare every defining field, written ones are interpreted against every other kind and foreign objects, "
        "and must answer without raising exactly whether kind and defining parts agree (numbers: whether the values agree). Equality up to a variable is interpreted per kind with the verdicts on the parts left open, and on leaves and small expressions.",
        "equal exactly when kind and all defining parts are equal")
