"""C01: expressions are immutable once built."""
import ast
import copy

from ..owners import Owners
from .c02 import History
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.interp import Budget, kinds
from ..vflow.values import Done, Infeasible, PList, Raised, Undecided


def verdict(it):
    if not it.world.events:
        return [Claim(T.ONE, T.ONE, "nothing is changed")]
    out = []
    for what, owner, f, node in it.world.events[:2]:
        where = f.short if f is not None else "?"
        out.append(Claim(T.ONE, T.ZERO, f"in {where}", loc=f.loc(node if node is not None else f.node) if f is not None else None, note=f" {where}: {what}, of {owner}"))
    return out


def watched(e):
    """The obligation `e` explored again; judged: no store to an existing expression or to a list that is not the callee's own."""
    n = copy.copy(e)
    n.name, n.rule, n.no_side = f"operands unchanged in {e.name}", "no mutation", True

    def go(it, inner=e.go):
        it.world.watch = True
        try:
            inner(it)
        except Infeasible:
            raise
        except (Undecided, Budget, Raised, Done):
            if not it.world.events:
                raise
        return verdict(it)

    n.go = go
    return n


def entries():
    from . import c04, c05, c07, c08, c09, c10, c11, c14, c15, c21, c22, c23, c24

    out = []
    for mod in (c04, c05, c07, c08, c09, c10, c11, c14, c21, c22, c23, c24):
        for e in mod.entries():
            out.append(watched(e))
    K = kinds()
    for name in ("Sum", "Prod"):
        c = K.by_name[name]
        l = c.lookup("__init__") or c.lookup("__new__")
        f = l[1][1] if l and l[1][0] == "func" else None
        for flag in (True, "sort") if name == "Sum" else (True,):
            for k in (1, 2):
                def go(it, c=c, flag=flag, k=k):
                    it.construct(c, [PList([it.world.atom(None, f"t{i}") for i in range(k)])], {"skip_checks": flag}, inline=True)
                    return [Claim(T.ONE, T.ONE)]

                out.append(watched(Entry(f"{name} of {k} terms, skip_checks={flag!r}", go, f, "no mutation", paths=60, no_side=True, inline=frozenset([("construct", name)]))))
    return out


def structural(rep):
    """Every store and list change of the package by whose object it is, followed through local names and calls."""
    o = Owners()
    rep.count("stores and list changes examined", len(o.sites))
    rep.count("calls examined", len(o.calls))
    for f, n, what, owner in o.events:
        rep.find("ownership", f"{f.short}: {what} on {owner}", f.loc(n), f"{f.short}: {what}, of {owner}, which is not the function's own: `{ast.unparse(n)[:160]}`")
    for f, p, g, n, what in o.public():
        rep.find("ownership", f"{f.short} changes {p}", g.loc(n), f"{f.short} changes the list {p} its caller handed in ({what} at {g.loc(n)})")
    h = History()
    h.run()
    for f, n, what, owner in h.memory_changes():
        rep.find("ownership", f"{f.short}: {what} on {owner}"[:120], f.loc(n), f"{f.short}: {what} on {owner}, which an expression keeps: `{ast.unparse(n)[:160]}`")
    for (f, p), (g, n, what) in o.mutates.items():
        rep.sample(f"{f.short} changes its own argument {p} ({what}, {g.loc(n)}): every caller hands in a list of its own")


def run(rep):
    structural(rep)
    return engine.check(
        rep, entries, 100,
        "Every store to a field of expressions and every list-changing operation of the package is examined: whose list or object it is, followed through local names (reaching definitions), parameters and calls. Then, path-sensitively: "
        "The obligations of the constructor, operator, derivative, substitution, trigonometric, simplification, integration-step, equality, polynomial, expansion and definite-integral checks are explored again; "
        "every store to a field of an expression that existed before the storing constructor ran, and every change of a list that belongs to an expression or was handed in by the caller, is an event; no feasible path may have one.",
        "no store to an existing expression or a foreign list")
