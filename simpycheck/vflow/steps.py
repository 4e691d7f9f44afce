"""Contracts and driver used when one step of the integrator is judged.

An integrand is an unknown function of the variable; a step rewrites it into one or more integrands. Each of those is taken
to be integrable: its solution is an unknown whose derivative is that integrand. Assembled backwards, the derivative of the
solution of the original integrand has to be the original integrand."""
from fractions import Fraction

from ..model import get_model
from . import rules
from . import terms as T
from .contracts import arg, m_contains, m_diff
from .engine import Claim
from .values import Arr, BoolV, Done, ExprV, Infeasible, Native, NumV, ObjV, PList, Raised, StrV, Undecided, as_term

K_LEFT = T.q(Fraction(7, 3))


# ------------------------------------------------------------------ looking into values
def opened(it, t):
    """A leaf whose make-up is known is replaced by it."""
    for _ in range(20):
        if t[0] != "a":
            return t
        w = it.world
        u = w.leaf_rep(t[1])
        if u in w.binds:
            t = w.binds[u]
            continue
        x = w.leaf.get(u)
        if not isinstance(x, ExprV):
            return ("a", u)
        r = x.rep()
        if r.uid != u and r.uid is None:
            t = r.term()
            continue
        c = r.exact
        if c is None or c.name == "Symbol" or not it.kinds.fields[c] or not all(n in r.f for n in it.kinds.fields[c]):
            k = it.kinds.const_term(c) if c is not None else None
            return k if k is not None else ("a", u)

        def get(n):
            v = r.f[n]
            return [as_term(i) for i in v.items] if n == "terms" else as_term(v)

        t = it.kinds.sem_fields(c, get, w)
    return t


def is_number_leaf(it, t):
    x = it.world.leaf.get(it.world.leaf_rep(t[1]))
    return isinstance(x, tuple) or isinstance(x, ExprV) and bool(x.rep().classes) and x.rep().classes <= it.kinds.nums


def is_symbol(it, t):
    return t[0] == "a" and it.world.is_symbol_leaf(it.world.leaf_rep(t[1]), None)


def known_independent(it, t, v):
    """True: t is known not to depend on v. None: not known."""
    t = opened(it, t)
    v = it.world.leaf_rep(v)
    k = t[0]
    if k in ("q", "c"):
        return True
    if k == "a":
        u = it.world.leaf_rep(t[1])
        if u == v:
            return False
        if is_number_leaf(it, t) or is_symbol(it, t):
            return True
        w = it.world
        if v in w.fresh_syms and w.fresh_dep is not None and (u, v) not in w.fresh_dep:
            return True
        if w.independent(u, v, None):
            return True
        if (u, v) in w.slopes:
            return False
        return None
    if k == "frz" and t[2] == v:
        return True
    if k == "at":
        inner = []
        for s, x in t[2]:
            if is_symbol(it, s) and it.world.leaf_rep(s[1]) == v:
                return known_independent(it, t[2][0][1], v) if len(t[2]) == 1 else None
            if known_independent(it, t[1], it.world.leaf_rep(s[1])) is not True:
                inner.append(x)
        rs = [known_independent(it, t[1], v)] + [known_independent(it, x, v) for x in inner]
    elif k == "D":
        rs = [known_independent(it, t[1], v)]
    else:
        rs = [known_independent(it, x, v) for x in t[1:] if isinstance(x, tuple)]
    if all(r is True for r in rs):
        return True
    if any(r is False for r in rs) and k in ("add", "mul", "pow", "fn", "log") and sum(r is not True for r in rs) == 1:
        return False
    return None


def varies(it, t, u):
    """Does a value made of the variable and of constants vary with it? None: it is not made so."""
    def plain(t):
        o = opened(it, t)
        if o == ("a", u) or known_independent(it, o, u) is True:
            return True
        return o[0] in ("add", "mul", "pow", "fn", "log") and all(plain(s) for s in o[1:] if isinstance(s, tuple))

    if not plain(t):
        return None
    flat = moved = 0
    for s in it.world.samples(5, 4, tries=60):
        try:
            d = s.ev(("D", t, ("a", u)))
        except T.Reject:
            continue
        if T.close(d, Fraction(0)):
            flat += 1
        else:
            moved += 1
    return moved > 0 or not flat


# ------------------------------------------------------------------ derivatives that are known
def dterm(it, t, x):
    v = it.world.leaf_rep(x[1])
    if known_independent(it, t, v) is True:
        return T.ZERO
    o = opened(it, t)
    if o == x:
        return T.ONE
    if t[0] == "a" and (it.world.leaf_rep(t[1]), v) in it.world.slopes:
        return it.world.slopes[(it.world.leaf_rep(t[1]), v)]
    if o[0] == "add":
        return T.add(*[dterm(it, u, x) for u in o[1:]])
    if o[0] == "mul":
        dep = [u for u in o[1:] if known_independent(it, u, v) is not True]
        if len(dep) == 1:
            return T.mul(*[u for u in o[1:] if u is not dep[0]], dterm(it, dep[0], x))
    return ("D", t, x)


def a_diff(it, x):
    def call(i, a, k):
        v = arg(a, k, 0, "var")
        base = m_diff(i, x, a, k)
        t = base.rep().t
        if t is not None and t[0] == "D":
            return i.world.built(dterm(i, t[1], t[2]))
        return base

    return Native("diff", call)


def a_contains(it, x):
    def call(i, a, k):
        v = arg(a, k, 0, "var")
        if not isinstance(v, ExprV) or v.rep().exact is None or v.rep().exact.name != "Symbol":
            return m_contains(i, x, a, k)
        y, u = x.rep(), v.rep().term()[1]
        i.world.var(u)
        t = y.term()
        r = known_independent(i, t, u)
        if r is not None:
            return not r
        if t[0] == "a" and opened(i, t)[0] != "a":
            t = norm(i, t)
        if t[0] == "a":
            r = i.truth(m_contains(i, x, a, k))
            if not r and u == i.step_var.rep().uid:
                for (l, q), n in i.counts.items():  # what does not contain the variable has no occurrence of it
                    if q == v.rep().term() and known_independent(i, ("a", l), u) is True:
                        i.world.fact("numeq", (n, T.ZERO), True)
            return r
        r = varies(i, t, u)
        if r is not None:
            return r
        if i.decide(BoolV(("contains?", t, u))):
            return True
        # the variable cancels: a single unknown factor is solved for, otherwise the value is taken not to vary
        if t[0] == "mul":
            free = [s for s in t[1:] if s[0] == "a" and opened(i, s) == s and not is_symbol(i, s) and not is_number_leaf(i, s) and (s[1], u) not in i.world.slopes and known_independent(i, s, u) is None]
            if len(free) == 1 and all(s is free[0] or free[0] not in set(T.subterms(s)) for s in t[1:]):
                c = i.world.atom(label="k")
                i.world.assume_contains(c.term(), u, False)
                rest = [s for s in t[1:] if s is not free[0]]
                i.world.binds[free[0][1]] = T.mul(c.term(), *[s[1] if s[0] == "pow" and s[2] == T.MINUS else T.div(T.ONE, s) for s in rest])
                return False
        if y.t is not None and any(s[0] == "a" and (s[1], u) in i.world.slopes or s[0] == "D" for s in T.subterms(t)):
            y.t = ("frz", t, u)
            return False
        raise Undecided("a compound expression without the variable")

    return Native("contains", call)


def a_symbols(it, x):
    def call(i, a, k):
        y = x.rep()
        v = i.step_var.rep()
        t = y.term()
        key = ("symbols", t)
        if key in i.symlists:
            return PList(i.symlists[key])
        if y.exact is not None and y.exact.name == "Symbol":
            return PList([y])
        r = known_independent(i, t, v.uid)
        c = i.truth(i.call(a_contains(i, x), [v], {})) if r is None else not r
        other = [i.other_symbol()] if i.choose(2, "another symbol") else []
        r = ([v] if c else []) + other
        i.symlists[key] = r
        return PList(r)

    return Native("symbols", call)


def a_numer_denom(it, x):
    y = x.rep()
    key = "nd"
    if key in y.notes:
        return y.notes[key]
    t = y.term()
    if t[0] != "a" or opened(it, t) != t:
        return NotImplemented
    n, d = it.world.atom(label="numerator"), it.world.atom(label="denominator")
    it.world.binds[t[1]] = T.div(n.term(), d.term())
    if it.denominator is not None:
        it.denominator(it, d)
    y.notes[key] = (n, d)
    return y.notes[key]


def a_factor(it, x):
    y = x.rep()
    if "factored" in y.notes:
        return Native("factor", lambda i, a, k: y.notes["factored"])
    return Native("factor", lambda i, a, k: i.world.built(y.term()))


# ------------------------------------------------------------------ polynomials
def coeffs(it, t):
    """Coefficients of a value as a polynomial of the variable, lowest first. Unknown leaves are taken to be polynomials."""
    w, x = it.world, it.step_var.rep()
    if t == x.term():
        return [T.ZERO, T.ONE]
    if t[0] == "a" and opened(it, t) == t and not is_symbol(it, t) and not is_number_leaf(it, t):
        u = w.leaf_rep(t[1])
        if (u, x.uid) in w.slopes:
            raise Undecided("an antiderivative taken as a polynomial")
        n = 1 if known_independent(it, t, x.uid) is True else 1 + it.choose(it.max_degree + 1, "degree")
        cs = [w.number("frac", f"{w.name(u)}{i}") for i in range(n)]
        if n > 1:
            w.fact("numeq", (cs[-1].t, T.ZERO), False)
        w.binds[u] = T.add(*[T.mul(c.t, *[x.term()] * i) for i, c in enumerate(cs)])
        r = w.leaf[u].rep()
        if n > 1:
            cl = it.kinds.set("Sum") if n > 2 else it.kinds.set("Sum", "Prod", "Symbol") if n == 2 else it.kinds.universe
            if not (r.classes & cl):
                raise Infeasible()
        it.coef_lists[u] = [c.t for c in cs]
        return it.coef_lists[u]
    if t[0] == "a" and w.leaf_rep(t[1]) in it.coef_lists:
        return it.coef_lists[w.leaf_rep(t[1])]
    o = opened(it, t)
    if known_independent(it, o, x.uid) is True:
        return [o]
    if o[0] == "add":
        ls = [coeffs(it, s) for s in o[1:]]
        n = max(len(l) for l in ls)
        return [T.add(*[l[i] for l in ls if i < len(l)]) for i in range(n)]
    if o[0] == "mul":
        r = [T.ONE]
        for s in o[1:]:
            l = coeffs(it, s)
            r = [T.add(*[T.mul(r[i], l[j - i]) for i in range(len(r)) if 0 <= j - i < len(l)]) for j in range(len(r) + len(l) - 1)]
        return r
    if o[0] == "pow" and T.isq(o[2]) and o[2][1].denominator == 1 and 0 < o[2][1] < 5:
        return coeffs(it, T.mul(*[o[1]] * int(o[2][1])) if o[1][0] != "mul" else ("mul",) + (o[1],) * int(o[2][1]))
    raise Raised("AssertionError", ())


def f_to_poly(it, a, k):
    x, v = it.castv(arg(a, k, 0, "expr")), arg(a, k, 1, "var")
    if x is None or v.rep() is not it.step_var.rep():
        return NotImplemented
    t = x.term()
    if it.poly_may_fail and opened(it, t) == t and t[0] == "a" and it.choose(2, "polynomial") == 1:
        raise Raised("AssertionError", ())
    return Arr([it.world.rat(it.mknum(c, "frac")) if not T.isq(c) else it.world.rat(c[1]) for c in coeffs(it, t)])


def f_is_poly(it, a, k):
    return it.choose(2, "is a polynomial") == 1


# ------------------------------------------------------------------ occurrences
def f_generate(it, a, k):
    s = it.world.symbol("u" + "'" * len(it.world.fresh_syms))
    it.world.var(s.uid)
    it.world.fresh_syms.add(s.uid)
    return s


def random_hook(it, name, a, k):
    """Random text and numbers: unknown, different at each call."""
    head, _, fn = name.rpartition(".")
    if head.split(".")[0] not in ("random", "secrets", "uuid"):
        return NotImplemented

    def one():
        return StrV([("rnd", next(it.world.uids))])

    if fn in ("choices", "sample"):
        n = k.get("k", a[-1] if len(a) > 1 and isinstance(a[-1], int) else 1)
        return PList([one() for _ in range(n)]) if isinstance(n, int) and 0 <= n < 100 else Opaque(name)
    if fn == "choice":
        return one()
    if fn in ("token_hex", "token_urlsafe"):
        return it.mkstr([("rnd", next(it.world.uids)) for _ in range(2 * (a[0] if a and isinstance(a[0], int) else 16))])
    if fn.startswith("uuid"):
        return it.mkstr([("rnd", next(it.world.uids)) for _ in range(32)])
    if fn in ("randint", "randrange", "getrandbits", "random", "randbelow"):
        return it.world.number("float" if fn == "random" else "int", "random number")
    return NotImplemented


def fresh_hook(it, c, args, kw):
    """A symbol whose name is made up is an introduced variable."""
    name = args[0] if args else kw.get("name")
    if c.name == "Symbol" and isinstance(name, StrV) and any(not isinstance(p, str) for p in name.parts) and hasattr(it, "fresh_names"):
        s = f_generate(it, (), {})
        it.fresh_names[s.uid] = name.parts
        return s
    return NotImplemented


def same_fields(it, t):
    """The expression behind a leaf whose parts are known although its kind is not, or None."""
    x = it.world.leaf.get(it.world.leaf_rep(t[1]))
    if not isinstance(x, ExprV):
        return None
    r = x.rep()
    if r.exact is not None or not r.f or r.uid in it.world.binds:
        return None
    fs = {it.kinds.fields[c] for c in r.classes}
    if len(fs) != 1:
        return None
    fs = next(iter(fs))
    return r if fs and all(n in r.f for n in fs) and "value" not in fs and "name" not in fs else None


def cnt(it, t, q):
    """Number of occurrences of q in t."""
    if t == q:
        return T.ONE
    o = opened(it, t)
    if o == q:
        return T.ONE
    k = o[0]
    if k in ("q", "c"):
        return T.ZERO
    if k == "a":
        u = it.world.leaf_rep(o[1])
        if is_number_leaf(it, o) or is_symbol(it, o):
            return T.ZERO
        r = same_fields(it, o)
        if r is not None:
            return T.add(*[cnt(it, as_term(v), q) for n in it.kinds.fields[next(iter(r.classes))] for v in (r.f[n].items if isinstance(r.f[n], PList) else [r.f[n]])])
        x = it.step_var.rep().term()
        if known_independent(it, o, x[1]) is True and known_independent(it, q, x[1]) is not True:
            return T.ZERO
        key = (u, q)
        if key not in it.counts:
            n = it.world.number("nat", f"occurrences of {T.show(q, it.world.name)} in {it.world.name(u)}")
            it.counts[key] = T.add(n.t, T.ONE) if q == x and known_independent(it, o, x[1]) is False else n.t
            if q != x and known_independent(it, q, x[1]) is not True:
                out = T.sub(cnt(it, o, x), T.mul(it.counts[key], cnt(it, q, x)))
                it.world.fact("lt", (out, T.ZERO), False)
        return it.counts[key]
    if k in ("add", "mul", "pow", "fn", "log"):
        return T.add(*[cnt(it, s, q) for s in o[1:] if isinstance(s, tuple)])
    raise Undecided("occurrences in a derived value")


def f_count(it, a, k):
    x, q = it.castv(arg(a, k, 0, "expr")), it.castv(arg(a, k, 1, "query"))
    if x is None or q is None:
        return NotImplemented
    return it.mknum(cnt(it, x.term(), q.term()), "int")


def norm(it, t):
    """Products of leaves of known make-up, with common factors cancelled."""
    o = opened(it, t)
    if o[0] == "mul":
        return T.mul(*[norm(it, s) for s in o[1:]])
    if o[0] == "pow" and o[2] == T.MINUS:
        b = norm(it, o[1])
        return T.mul(*[T.pow_(s, T.MINUS) for s in (b[1:] if b[0] == "mul" else (b,))])
    return t if o[0] == "at" else o


def rep(it, t, old, u):
    """t with every occurrence of `old` replaced by the fresh symbol u."""
    if t == old:
        return u
    o = opened(it, t)
    if o == old or o == opened(it, old):
        return u
    k = o[0]
    if k in ("q", "c"):
        return o
    x = it.step_var.rep().term()
    if known_independent(it, o, x[1]) is True:
        return o
    if k == "a":
        if is_symbol(it, o) or is_number_leaf(it, o):
            return o
        w = it.world
        v = w.leaf_rep(o[1])
        r = same_fields(it, o)
        if r is not None:
            it.group(r, lambda c: c, "kind")
            return rep(it, o, old, u)
        if (v, old, u) in it.splits:
            return it.splits[(v, old, u)]
        n = cnt(it, o, old)
        out = T.sub(cnt(it, o, x), T.mul(n, cnt(it, old, x)))
        h = w.atom(label=f"H_{w.name(v)}")
        w.assume_contains(h.term(), x[1], False)
        h1 = w.atom(label=f"R_{w.name(v)}")
        w.fresh_dep |= {(h.uid, u[1]), (h1.uid, u[1])}
        H = T.add(h.term(), T.mul(out, h1.term())) if out != T.ZERO else h.term()
        w.binds[v] = ("at", H, ((u, old),))
        it.splits[(v, old, u)] = H
        return H
    if k in ("add", "mul"):
        return (T.add if k == "add" else T.mul)(*[rep(it, s, old, u) for s in o[1:]])
    if k == "pow":
        return T.pow_(rep(it, o[1], old, u), rep(it, o[2], old, u))
    if k == "fn":
        return T.fn(o[1], rep(it, o[2], old, u))
    if k == "log":
        return ("log", rep(it, o[1], old, u), rep(it, o[2], old, u))
    if k == "at" and o[2] == ((u, old),):
        return o[1]
    raise Undecided(f"replacement in a {k} value")


def f_replace(it, a, k):
    e, old, new = (it.castv(arg(a, k, i, n)) for i, n in enumerate(("expr", "old", "new")))
    if e is None or old is None or new is None:
        return NotImplemented
    o, n = old.term(), new.term()
    if is_symbol(it, opened(it, o)):
        it.world.var(it.world.leaf_rep(o[1]))
        if known_independent(it, e.term(), it.world.leaf_rep(o[1])) is True:
            return it.world.built(e.term())
        return it.world.built(("at", e.term(), ((o, n),)))
    if not is_symbol(it, n):
        raise Undecided("replacement of an expression by an expression")
    return it.world.built(rep(it, norm(it, e.term()), o, n))


# ------------------------------------------------------------------ what other parts supply
def antiderivative(it, t, v, label="F"):
    """An unknown whose derivative with respect to the symbol v is t."""
    s = it.world.atom(label=label)
    it.world.slopes[(s.uid, v.uid)] = t
    if v.uid in it.world.fresh_syms:
        it.world.fresh_dep.add((s.uid, v.uid))
    x = it.step_var.rep()
    if v.uid != x.uid:
        it.world.slopes[(s.uid, x.uid)] = T.mul(K_LEFT, ("D", t, x.term())) if known_independent(it, t, x.uid) is not True else T.ZERO
    return s


def f_table(it, a, k):
    x, v = it.castv(arg(a, k, 0, "integrand")), arg(a, k, 1, "var")
    if x is None:
        return NotImplemented
    if it.choose(2, "in the table") == 0:
        return None
    return antiderivative(it, x.term(), v.rep(), "I")


def f_sans_const(it, a, k):
    x = it.castv(arg(a, k, 0, "expr"))
    if x is None or (a[1:] or k.get("include_factor")):
        return NotImplemented
    t, v = x.term(), it.step_var.rep()
    if t[0] == "a" and (t[1], v.uid) in it.world.slopes:
        c = it.world.atom(label="c")
        it.world.assume_contains(c.term(), v.uid, False)
        y = it.world.atom(label="u0")
        it.world.slopes[(y.uid, v.uid)] = T.div(it.world.slopes[(t[1], v.uid)], c.term())
        return y
    return NotImplemented


def f_eq_with_var(it, a, k):
    (e, v), (p, q) = it.iterate(a[0]), it.iterate(a[1])
    if not it.table_lookup:
        return False
    if it.choose(2, "matches") == 0:
        return False
    t = p.term()
    b = ("at", t, ((q.term(), v.term()),)) if q.rep() is not v.rep() else t
    if e.rep().uid is None or opened(it, e.term()) != e.term() or e.rep().f:
        it.world.fact("numeq", (e.term(), b), True)
        raise Undecided("match of a compound expression")
    it.world.binds[e.rep().uid] = T.replace_leaf(t, {("a", q.rep().term()[1]): v.term()})
    return True


def f_pts(it, a, k):
    x = it.castv(arg(a, k, 0, "expr"))
    if it.choose(2, "changed") == 0:
        return None
    return it.world.built(x.term())


def f_pyth(it, a, k):
    x = it.castv(arg(a, k, 0, "expr"))
    r = it.world.built(x.term())
    return (r, it.choose(2, "changed") == 1) if it.truth(arg(a, k, 1, "verbose", False)) else r


def install(it):
    rules.install(it)
    w, C = it.world, it.contracts
    w.fresh_dep = set()
    it.step_var = None
    it.counts, it.coef_lists, it.splits = {}, {}, {}
    it.max_degree = 2
    it.poly_may_fail = True
    it.denominator = None
    it.table_lookup = False
    it.fresh_names = {}
    it._other = None

    def other():
        if it._other is None:
            it._other = w.symbol("y")
            w.var(it._other.uid)
            w.fact("eq", (it._other.term(), it.step_var.rep().term()), False)
            w.lits[("eq",) + tuple(sorted((id(it._other), id(it.step_var.rep()))))] = False
            w.lits[("eqt",) + tuple(sorted((it._other.term(), it.step_var.rep().term()), key=repr))] = False
        return it._other

    it.other_symbol = other
    for n, f in {"diff": a_diff, "contains": a_contains, "symbols": a_symbols, "numerator_denominator": a_numer_denom, "factor": a_factor}.items():
        C[("attr", n)] = f
    for n, f in {
        "count": f_count, "replace": f_replace, "check_integral_table": f_table, "remove_const_factor": f_sans_const,
        "eq_with_var": f_eq_with_var, "to_const_polynomial": f_to_poly, "is_polynomial": f_is_poly, "product_to_sum_unit": f_pts, "pythagorean_simplification": f_pyth,
    }.items():
        C[("name", n)] = f
    C.pop(("name", "diff"), None)


def method_hook(it, f, args, kw):
    """The integrator called from inside a step."""
    fn = f.func
    if fn.cls is not None and fn.name in ("integrate_without_heuristics", "_integrate_dv_check"):
        x, v = it.castv(args[-2]), args[-1]
        if it.choose(2, "integrable") == 0:
            return None
        return antiderivative(it, x.term(), v.rep(), "v")
    return NotImplemented


# ------------------------------------------------------------------ driver
def start(it, e=None):
    """(root node, variable, integrand)"""
    m = get_model()
    w = it.world
    x = it.__dict__.setdefault("shape_env", {}).get("x") or w.symbol("x")
    it.shape_env["x"] = x
    it.step_var = x
    w.var(x.uid)
    # the substitutions are judged where they are one-to-one
    w.fact("lt", (x.term(), T.mul(T.q(Fraction(1, 2)), T.PI)), True)
    e = w.atom(label="e") if e is None else e(it)
    root = it.construct(m.cls("Node"), [e, x], {})
    return root, x, e


def do_step(it, cls, node):
    """Applies the transform to the node; False when it does not apply."""
    tr = it.construct(cls, [], {})
    if not it.truth(it.call_method(tr, "check", [node], {})):
        return None
    it.call_method(tr, "forward", [node], {})
    return tr


def children(it, node):
    return list(it.getattr(node, "children").items)


def pick(it, node):
    """Of several alternatives one is followed, the others fail."""
    cs = children(it, node)
    ty = it.getattr(node, "type")
    if len(cs) > 1 and ty != "AND":
        it.setattr(node, "type", "OR")
        i = it.choose(len(cs), "alternative")
        for j, c in enumerate(cs):
            if j != i and it.getattr(c, "type") != "SOLUTION":
                it.setattr(c, "type", "FAILURE")
        cs = [cs[i]]
    for c in cs:
        if it.getattr(c, "type") != "FAILURE":
            pick(it, c)


def open_leaves(it, node):
    cs = children(it, node)
    if not cs:
        return [node] if it.getattr(node, "type") == "UNSET" else []
    return [l for c in cs for l in open_leaves(it, c)]


def set_base(it, node):
    """An introduced variable has, at the point of evaluation, the value its substitution gives it."""
    for c in children(it, node):
        v, pv = it.getattr(c, "var").rep(), it.getattr(node, "var").rep()
        if v is not pv and v.uid in it.world.fresh_syms and v.uid not in it.world.base_at:
            u = it.getattr(c, "transform")
            if isinstance(u, ObjV):
                y = it.getattr(u, "_u")
                if isinstance(y, ExprV):
                    it.world.base_at[v.uid] = y.term()
        set_base(it, c)


def finish(it, root, x, e):
    if not children(it, root):
        raise Done()
    pick(it, root)
    set_base(it, root)
    for l in open_leaves(it, root):
        v = it.getattr(l, "var").rep()
        le = it.castv(it.getattr(l, "expr"))
        it.setattr(l, "solution", antiderivative(it, le.term(), v))
        it.setattr(l, "type", "SOLUTION")
    back = get_model().cls("Integration").lookup("_go_backwards")
    it.call(it.func_value(back[1][1]), [root], {})
    s = it.getattr(root, "solution")
    if not isinstance(s, ExprV):
        raise Undecided("no solution was assembled")
    it.final = (root, s)
    return [Claim(e.term(), ("D", s.term(), x.term()), "d(solution)/dx")]
