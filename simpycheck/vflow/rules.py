"""Contracts used when rewriting rules are judged: tree walkers spawn one obligation per rule they apply."""
from . import terms as T
from .contracts import arg
from .engine import Claim
from .values import BoolV, Done, ExprV, FuncV, Infeasible, Native, Opaque, PDict, PList, PIter, Raised, StrV, Undecided, as_term


def anys_of(it, t):
    out = []
    for u in T.subterms(t):
        if u[0] == "a" and u[1] in it.anys and u[1] not in out:
            out.append(u[1])
    return out


def c_any(it, c, a, k):
    x = it.world.atom(frozenset([c]), "any")
    x.f["_key"] = a[0] if a and a[0] else StrV([("anykey", x.uid)])
    x.f["_is_multiple_terms"] = False
    it.anys[x.uid] = x
    return x


def f_eq(it, a, k):
    """expr = factor * query[any := match] + rest, when it succeeds."""
    x, qy = it.castv(arg(a, k, 0, "expr")), it.castv(arg(a, k, 1, "query"))
    if x is None or qy is None:
        return NotImplemented
    if anys_of(it, x.term()) and not anys_of(it, qy.term()):
        x, qy = qy, x
    uf, us = it.truth(arg(a, k, 2, "up_to_factor", False)), it.truth(arg(a, k, 3, "up_to_sum", False))
    if it.choose(2, "pattern matches") == 0:
        return PDict([("success", False)])
    w = it.world
    ms = {u: w.atom(label=f"match{i or ''}") for i, u in enumerate(anys_of(it, qy.term()))}
    t = T.replace_leaf(qy.term(), {("a", u): m.term() for u, m in ms.items()})
    e = x.term()
    d = PDict([("success", True)])
    if uf:
        f = w.atom(label="factor")
        d.d[it.dkey("factor")] = f
        ft = T.mul(f.term(), t)
    else:
        ft = t
    if us:
        r = w.atom(label="rest")
        d.d[it.dkey("rest")] = r
        w.binds[r.uid] = T.sub(e, ft)
    elif uf:
        w.binds[f.uid] = T.div(e, t)
        w.fact("numeq", (e, ft), True)
    else:
        w.fact("numeq", (e, ft), True)
        it._solve(e, ft)
    if len(ms) == 1:
        d.d[it.dkey("matches")] = next(iter(ms.values()))
    else:
        d.d[it.dkey("matches")] = PDict([(it.dkey(it.anys[u].f["_key"]), m) for u, m in ms.items()])
    return d


def oblige(it, what, perform, cond=None):
    """Side obligation: perform keeps the value of whatever it is applied to. Ends the path."""
    y = it.world.atom(label="e")
    if cond is not None and not it.truth(it.call(cond, [y], {})):
        raise Done()
    r = it.call(perform, [y], {})
    if isinstance(r, ExprV):
        it.side.append(Claim(y.term(), r, what))
    raise Done()


def pname(v):
    f = getattr(v, "func", None) or getattr(getattr(v, "fn", None), "func", None)
    return f.short if f is not None and hasattr(f, "short") else "a replacement"


def apply_rules(it, x, performs, cond=None, each_cond=None):
    """One branch per rule, plus the branch where all rules are trusted."""
    n = it.choose(len(performs) + 1, "which rule") if performs and not it.in_rule else len(performs)
    if n < len(performs):
        it.in_rule = True
        oblige(it, f"in {pname(performs[n])}", performs[n], each_cond[n] if each_cond else cond)
    return it.world.built(x.term())


def f_kinder_many(it, a, k):
    x, ps = it.castv(arg(a, k, 0, "expr")), list(it.iterate(arg(a, k, 1, "performs")))
    if x is None:
        return NotImplemented
    cond = arg(a, k, 3, "overarching_cond")
    r = apply_rules(it, x, ps, cond)
    if it.truth(arg(a, k, 2, "verbose", False)):
        return (r, it.choose(2, "hit") == 1)
    return r


def f_kinder(it, a, k):
    k = dict(k)
    p = arg(a, k, 1, "perform")
    k.pop("perform", None)
    return f_kinder_many(it, [a[0] if a else k.pop("expr"), PList([p])] + list(a[2:]), k)


def f_replace_class(it, a, k):
    x = it.castv(arg(a, k, 0, "expr"))
    if x is None:
        return NotImplemented
    cs, fs = list(it.iterate(arg(a, k, 1, "cls"))), list(it.iterate(arg(a, k, 2, "newfunc")))
    n = it.choose(len(fs) + 1, "which class") if not it.in_rule else len(fs)
    if n < len(fs):
        it.in_rule = True
        y = it.world.atom(label="e")
        r = it.call(fs[n], [y], {})
        if isinstance(r, ExprV) and n < len(cs):
            it.side.append(Claim(T.fn(cs[n].name.lower(), y.term()), r, f"for {cs[n].name}"))
        raise Done()
    return it.world.built(x.term())


def f_replace_factory_list(it, a, k):
    cs, ps = arg(a, k, 0, "conditions"), arg(a, k, 1, "performs")

    def call(i, aa, kk):
        x = i.castv(aa[0])
        return apply_rules(i, x, list(i.iterate(ps)), None, list(i.iterate(cs)))

    return Native("replacer", call)


def f_replace_factory(it, a, k):
    return f_replace_factory_list(it, [PList([arg(a, k, 0, "condition")]), PList([arg(a, k, 1, "perform")])], {})


def f_trig_simplify(it, a, k):
    x = it.castv(arg(a, k, 0, "expr"))
    return (it.world.built(x.term()), it.choose(3, "hit") == 1)


def f_none_or_same(it, a, k):
    x = it.castv(a[0])
    if it.choose(2, "changed") == 0:
        return None
    it.sum_values.add(x.term())
    return it.world.built(x.term(), it.kinds.set("Sum"))


def a_expand(old):
    """Expanding a product with a sum among its factors gives a sum (free monomials do not cancel)."""

    def attr(it, x):
        f = old(it, x)

        def call(i, a, k):
            r = f.fn(i, a, k)
            t = x.rep().t
            if isinstance(r, ExprV) and t is not None and t[0] == "mul" and any(u in i.sum_values for u in t[1:]):
                i.refine(r.rep(), i.kinds.set("Sum"))
            return r

        return Native("expand", call)

    return attr


def f_list_or_none(of_list):
    def f(it, a, k):
        m = arg([], k, 9, "multiplier")
        if of_list and isinstance(a[0], ExprV):
            # iterating over an expression: its terms, taken for those of a sum
            it.refine(a[0].rep(), it.kinds.set("Sum"))
            t = a[0].term()
        elif of_list:
            xs = [it.castv(v) for v in it.iterate(a[0])]
            t = T.add(*[v.term() for v in xs]) if xs else T.ZERO
        else:
            t = it.castv(a[0]).term()
        if m is not None:
            t = T.mul(t, it.castv(m).term())
        if it.choose(2, "changed") == 0:
            return None
        u, v = it.world.atom(label="p0"), it.world.atom(label="p1")
        it.world.binds[v.uid] = T.sub(t, u.term())
        return PList([u, v])

    return f


def f_general_contains(it, a, k):
    x = it.castv(a[0])
    return BoolV(("gcontains", x.term(), id(a[1])))


def install(it):
    C = it.contracts
    it.anys = {}
    it.in_rule = False
    it.sum_values = set()
    if ("attr", "expand") in C:
        C[("attr", "expand")] = a_expand(C[("attr", "expand")])
    N = {
        "eq": f_eq, "kinder_replace_many": f_kinder_many, "kinder_replace": f_kinder, "replace_class": f_replace_class,
        "replace_factory": f_replace_factory, "replace_factory_list": f_replace_factory_list, "trig_simplify": f_trig_simplify,
        "product_to_sum": f_none_or_same, "product_to_sum_unit": f_none_or_same, "_product_to_sum_unit": f_list_or_none(False), "_product_to_sum": f_list_or_none(True),
        "general_contains": f_general_contains,
    }
    for n, f in N.items():
        C[("name", n)] = f
    C[("construct", "Any_")] = c_any
