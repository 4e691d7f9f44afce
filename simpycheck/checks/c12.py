"""C12: solved and failed mean what they say, answers are assembled from complete parts, and no answer comes with a warning."""
import itertools

from ..model import get_model
from ..vflow import engine, steps
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.values import BoolV, Done, ExprV, Native, Opaque, PList, Raised, StrV, Undecided, as_term

S, F, U, A, O = "SOLUTION", "FAILURE", "UNSET", "AND", "OR"


def holds(ok, what, f=None):
    return Claim(T.ONE, T.ONE if ok else T.ZERO, what, loc=f.loc(f.node) if f is not None else None)


def ref_solved(t):
    ty, cs = t
    if ty == S:
        return True
    if not cs or ty == F:
        return False
    return (any if ty == O else all)(ref_solved(c) for c in cs)


def ref_failed(t):
    ty, cs = t
    if ty == F:
        return True
    if not cs or ty == S:
        return False
    return (all if ty == O else any)(ref_failed(c) for c in cs)


LEAVES = [(S, ()), (F, ()), (U, ())]


def trees():
    """Search trees up to two levels of alternatives and joint problems."""
    out = list(LEAVES)
    one = []
    for ty in (A, O, U):
        for k in (1, 2, 3):
            if ty == U and k > 1:
                continue  # a node whose children were not classified has one child
            one += [(ty, cs) for cs in itertools.product(LEAVES, repeat=k)]
    out += one + [(A, ()), (O, ())]
    two = [t for t in one if len(t[1]) <= 2]
    for ty in (A, O):
        out += [(ty, (x, y)) for x in two for y in LEAVES] + [(ty, (y, x)) for x in two for y in LEAVES]
    out += [(U, (x,)) for x in two] + [(A, (x, y)) for x in two[:: 3] for y in two[1:: 2]] + [(O, (x, y)) for x in two[1:: 3] for y in two[:: 2]]
    return out


def entries():
    m = get_model()
    out = []
    node_cls, integ = m.cls("Node"), m.cls("Integration")
    fs = {f.name: f for f in m.funcs if f.cls is None and f.parent is None and f.module.name.endswith((".integration", ".transforms"))}

    def entry(name, go, f, rule, **kw):
        kw.setdefault("paths", 300)
        kw.setdefault("secs", 6)
        kw.setdefault("max_rec", 8)
        out.append(Entry(name, go, f, rule, extra=steps.install, **kw))

    def meth(c, n):
        l = c.lookup(n)
        return l[1][1] if l and l[1][0] == "func" else None

    def node(it, x, parent=None, label="e", **kw):
        n = it.construct(node_cls, [it.world.atom(label=label), x], dict(kw))
        if parent is not None:
            it.setattr(n, "parent", parent)
            it.getattr(parent, "children").items.append(n)
        return n

    def build(it, t, x, parent=None, path="r"):
        ty, cs = t
        n = node(it, x, parent, "e" + path)
        it.setattr(n, "type", ty)
        if ty == S:
            it.setattr(n, "solution", it.world.atom(label="s" + path))
        for i, c in enumerate(cs):
            build(it, c, x, n, path + str(i))
        return n

    def show(t):
        return t[0] + ("(" + ", ".join(show(c) for c in t[1]) + ")" if t[1] else "")

    def variable(it):
        x = it.world.symbol("x")
        it.step_var = x
        it.world.var(x.uid)
        return x

    # ---------------------------------------------------------- the predicates
    all_trees = trees()
    for name, ref in (("is_solved", ref_solved), ("is_failed", ref_failed), ("is_finished", lambda t: ref_solved(t) or ref_failed(t))):
        f = meth(node_cls, name)
        if f is None:
            l = node_cls.lookup(name)
            f = l[1][1] if l and len(l[1]) > 1 and hasattr(l[1][1], "node") else None
        if node_cls.lookup(name) is None:
            continue
        for j in range(0, len(all_trees), 60):
            chunk = all_trees[j:j + 60]

            def gop(it, chunk=chunk, name=name, ref=ref, f=f):
                x = variable(it)
                t = chunk[it.choose(len(chunk), "tree")]
                if not t[1] and t[0] in (A, O) and name != "is_solved":
                    raise Done()
                n = build(it, t, x)
                v = it.getattr(n, name)
                return [holds(it.truth(v) == ref(t), f"of {show(t)} (should be {ref(t)})", f)]

            entry(f"Node.{name}, trees {j}..{j + len(chunk) - 1}", gop, f, "node state")
    for name, want in (("unfinished_leaves", lambda t: None), ("leaves", None)):
        if node_cls.lookup(name) is None:
            continue
        f = node_cls.lookup(name)[1][1]
        chunk = [t for t in all_trees if t[1] or t[0] not in (A, O)][:: 7]

        def gol(it, name=name, f=f):
            x = variable(it)
            t = chunk[it.choose(len(chunk), "tree")]
            n = build(it, t, x)
            got = list(it.iterate(it.getattr(n, name)))
            labels = []

            def walk(nd, t):
                if not t[1]:
                    if name == "leaves" or t[0] == U:
                        labels.append(nd)
                for c, ct in zip(it.getattr(nd, "children").items, t[1]):
                    walk(c, ct)

            walk(n, t)
            ok = len(got) == len(labels) and all(any(a is b for b in labels) for a in got)
            return [holds(ok, f"of {show(t)}", f)]

        entry(f"Node.{name}", gol, f, "node state")

    # ---------------------------------------------------------- joint problems need all their answers
    for c in m.subclasses(m.cls("Transform")):
        if m.abstract_members(c) or ".debug" in c.module.name:
            continue
        l = c.lookup("forward")
        if not l or l[1][0] != "func":
            continue
        f = l[1][1]
        b = c.lookup("backward")[1][1]

        # which transforms pose joint problems is read off their forward step
        def goj(it, c=c, b=b):
            root, x, e = steps.start(it)
            if steps.do_step(it, c, root) is None or it.getattr(root, "type") != "AND":
                raise Done()
            cs = steps.children(it, root)
            if len(cs) < 2:
                raise Done()
            missing = it.choose(len(cs), "missing")
            pending = it.choose(2, "solved but not assembled")
            if pending:  # its own sub-problem has an answer, it has none yet
                sub = node(it, x, cs[missing], "sub")
                it.setattr(sub, "type", "SOLUTION")
                it.setattr(sub, "solution", it.world.atom(label="s_sub"))
            first = (missing + 1) % len(cs)
            for i, n in enumerate(cs):
                if i != missing:
                    it.setattr(n, "type", "SOLUTION")
                    it.setattr(n, "solution", it.world.atom(label=f"s{i}"))
            try:
                it.call_method(it.getattr(cs[first], "transform"), "backward", [cs[first]], {})
            except Raised as r:
                return [holds(r.exc not in ("AttributeError", "TypeError", "NameError", "UnboundLocalError"), "refusal while a sibling has no answer", b)]
            return [holds(it.getattr(root, "solution") is None, "no answer while a sibling has none", b)]

        if c.name in ("Additivity",) or "AND" in (n.value for n in __import__("ast").walk(f.node) if n.__class__.__name__ == "Constant"):
            entry(f"{c.name}.backward with an unanswered sibling", goj, b, "joint answers", call_hook=steps.method_hook)

        # nothing to go back with
        def gon(it, c=c, b=b):
            x = variable(it)
            tr = it.construct(c, [], {})
            p = node(it, x)
            n = node(it, x, p, "d")
            it.setattr(n, "transform", tr)
            try:
                it.call_method(tr, "backward", [n], {})
            except Raised:
                return [holds(True, "refused")]
            return [holds(it.getattr(p, "solution") is None, "no answer from a node without one", b)]

        entry(f"{c.name}.backward of a node without an answer", gon, b, "joint answers")

    # ---------------------------------------------------------- table look-up of a leaf
    f = fs.get("_check_if_node_solvable")
    if f:
        def got(it, f=f):
            x = variable(it)
            n = node(it, x)
            it.table = None
            it.call(it.func_value(f), [n], {})
            s, ty = it.getattr(n, "solution"), it.getattr(n, "type")
            if it.table is None:
                return [holds(s is None and ty == U, "a leaf that is not in the table is left open", f)]
            return [holds(ty == S and isinstance(s, ExprV), "a leaf found in the table is a solution", f)] + ([Claim(it.table.term(), s.term(), "answer of the leaf")] if isinstance(s, ExprV) else [])

        def table_hook(it, fn, a, k):
            if fn.func.name == "check_integral_table":
                it.table = it.world.atom(label="I") if it.choose(2, "in the table") else None
                return it.table
            return NotImplemented

        entry("_check_if_node_solvable", got, f, "answers", call_hook=table_hook, inline=frozenset([("name", "check_integral_table")]))

    # ---------------------------------------------------------- classification after the heuristics
    f = fs.get("_integrate_heuristically")
    if f:
        def heur_hook(it, fn, a, k):
            fn = fn.func
            if fn.cls is not None and fn.name == "check" and fn.cls.name != "Transform":
                if it.made >= 3:
                    return False
                return it.choose(2, "applies") == 1
            if fn.cls is not None and fn.name == "forward":
                p = a[1]
                k_ = it.choose(3, "outcome")
                if k_ == 2 and not it.whole:  # the step found the whole answer
                    it.whole = True
                    n = node(it, it.step_var, p, f"d{it.made}")
                    it.setattr(n, "type", S)
                    it.setattr(n, "solution", it.world.atom(label=f"s{it.made}"))
                    it.setattr(p, "type", O)
                elif k_:
                    node(it, it.step_var, p, f"d{it.made}")
                it.made += bool(k_)
                return None
            if fn.name == "_integrate_safely":
                it.safely.append(a[0])
                return None
            return NotImplemented

        def goh(it, f=f):
            x = variable(it)
            n = node(it, x)
            it.made, it.whole, it.safely = 0, False, []
            it.call(it.func_value(f), [n], {})
            cs = steps.children(it, n)
            if it.whole:
                return [holds(it.truth(it.getattr(n, "is_solved")), "solved when a step found the whole answer", f)]
            if not cs:
                return [holds(it.truth(it.getattr(n, "is_failed")), "failed when nothing applies", f), holds(not it.truth(it.getattr(n, "is_solved")), "not solved when nothing applies", f)]
            r = [holds(not it.truth(it.getattr(n, "is_finished")), "open while its alternatives are", f)]
            i = it.choose(len(cs), "solved alternative")
            for j, c in enumerate(cs):
                it.setattr(c, "type", S if j == i else F)
            r.append(holds(it.truth(it.getattr(n, "is_solved")), "one solved alternative solves it", f))
            r.append(holds(not it.truth(it.getattr(n, "is_failed")), "one solved alternative keeps it from failing", f))
            it.setattr(cs[i], "type", F)
            r.append(holds(it.truth(it.getattr(n, "is_failed")), "fails when all alternatives fail", f))
            return r

        entry("_integrate_heuristically", goh, f, "classification", call_hook=heur_hook, paths=600)

    # ---------------------------------------------------------- assembling
    back = meth(integ, "_go_backwards")
    if back:
        add = m.cls("Additivity")
        shapes = [t for t in all_trees if t[1] and all(c[0] != U for c in t[1] if not c[1]) and ref_solved(t)]
        shapes = [t for t in shapes if all(c[1] and ref_solved(c) or not c[1] or t[0] == O for c in t[1])]

        def answer(it, n, t):
            """Values the tree may be answered with: the sum of joint ones, any solved alternative."""
            ty, cs = t
            if ty == S:
                return [it.getattr(n, "solution").term()]
            sub = [(c, ct) for c, ct in zip(steps.children(it, n), cs)]
            if ty == O:
                return [v for c, ct in sub if ref_solved(ct) for v in answer(it, c, ct)]
            return [T.add(*vs) for vs in itertools.product(*[answer(it, c, ct) for c, ct in sub])]

        same = next((c for c in m.subclasses(m.cls("Transform")) if c.name in ("Expand", "Simplify")), None)

        def gob(it):
            x = variable(it)
            t = shapes[it.choose(len(shapes), "tree")]
            n = build(it, t, x)

            def dress(n):
                joint = it.getattr(n, "type") == A
                for c in steps.children(it, n):
                    it.setattr(c, "transform", it.construct(add if joint else same, [], {}))
                    dress(c)

            dress(n)
            want = answer(it, n, t)
            try:
                it.call(it.func_value(back), [n], {})
            except Raised as err:
                return [holds(False, f"an answer for the solved tree {show(t)}, not {err.exc}", back)]
            s = it.getattr(n, "solution")
            if not isinstance(s, ExprV):
                return [holds(False, f"an answer for the solved tree {show(t)}", back)]
            if len(set(want)) == 1:
                return [Claim(want[0], s.term(), f"answer of {show(t)}")]
            for smp in it.world.samples(3, 1):
                v = smp.ev(s.term())
                return [holds(any(T.close(v, smp.ev(w)) for w in want), f"answer of {show(t)} is that of a solved alternative", back)]
            raise Undecided("no sample")

        entry("assembling the answer of a solved tree", gob, back, "assembly", paths=len(shapes) + 5, secs=20)
        unsolved = [t for t in all_trees if not ref_solved(t)][:: 5]

        def gou(it):
            x = variable(it)
            t = unsolved[it.choose(len(unsolved), "tree")]
            n = build(it, t, x)
            try:
                it.call(it.func_value(back), [n], {})
            except Raised:
                return [holds(True, "refused")]
            return [holds(it.getattr(n, "solution") is None, f"no answer for the unsolved tree {show(t)}", back)]

        entry("assembling an unsolved tree", gou, back, "assembly", paths=len(unsolved) + 5)

    # ---------------------------------------------------------- the search itself
    main = meth(integ, "integrate")
    if main:
        def search_hook(it, fn, a, k):
            fn = fn.func
            if fn.name in ("_integrate_safely", "_integrate_heuristically"):
                return None
            if fn.name in ("_cycle",) or fn.name.startswith("_get_next_node"):
                n = it.root
                if n is None:
                    n = next(v for v in a if getattr(getattr(v, "cls", None), "name", "") == "Node")
                    it.root = n
                if fn.name != "_cycle":
                    return n
                it.cycles += 1
                if a[-1] is None:
                    raise Raised("AttributeError")
                o = it.choose(3, "cycle") if it.cycles < 3 else 1 + it.choose(2, "cycle")
                if o == 1:
                    it.setattr(n, "type", S)
                    it.setattr(n, "solution", it.world.atom(label="answer"))
                    return "SOLVED"
                if o == 2:
                    it.setattr(n, "type", F)
                    return None
                return n
            if fn.name in ("print_tree", "print_solution_tree", "log"):
                return None
            return NotImplemented

        def builtin_hook(it, name, a, k):
            if name == "warnings.warn":
                it.warned = True
                return None
            if name.split(".")[0] == "time":
                return it.world.number("float", "clock")
            return NotImplemented

        for final in (True, False):
            def gom(it, final=final):
                x = variable(it)
                it.root, it.cycles, it.warned = None, 0, False
                e = it.world.atom(label="e")
                it.contracts[("attr", "simplify")] = lambda i, v: Native("simplify", lambda j, a, k: j.world.built(v.term()))
                g = it.construct(integ, [], {})
                try:
                    r = it.call_method(g, "integrate", [e, x], {"final": final})
                except Raised as err:
                    return [holds(False, f"no answer is reported by a warning, not by {err.exc}", main)]
                if it.root is None:
                    raise Undecided("no search")
                solved = it.getattr(it.root, "type") == S
                if r is None:
                    return [holds(not solved, "an answer that was found is returned", main), holds(it.warned, "a warning when there is no answer", main)]
                if not isinstance(r, ExprV):
                    raise Undecided("result")
                if not solved:
                    return [holds(False, "no answer without a solved tree", main)]
                return [Claim(it.getattr(it.root, "solution").term(), r.term(), "answer returned")]

            entry(f"Integration.integrate(final={final})", gom, main, "search result", call_hook=search_hook, builtin_hook=builtin_hook, paths=300)
    quick = meth(integ, "integrate_without_heuristics")
    if quick and m.cls("Additivity"):
        def quick_hook(it, fn, a, k):
            fn = fn.func
            if fn.name == "_integrate_safely":
                if it.choose(2, "sum"):
                    x = it.getattr(a[0], "var")
                    it.setattr(a[0], "type", A)
                    it.parts = [node(it, x, a[0], f"d{i}") for i in range(3)]
                    for p in it.parts:
                        it.setattr(p, "transform", it.construct(m.cls("Additivity"), [], {}))
                else:
                    it.parts = [a[0]]
                return None
            if fn.name == "check_integral_table":
                r = it.world.atom(label=f"s{len(it.answers)}") if it.choose(2, "in the table") else None
                it.answers.append(r)
                return r
            return NotImplemented

        def goq(it):
            x = variable(it)
            it.parts, it.answers = [], []
            e = it.world.atom(label="e")
            try:
                r = it.call(it.func_value(quick), [e, x], {})
            except Raised as err:
                return [holds(False, f"no answer is reported as None, not by {err.exc}", quick)]
            full = it.answers and all(a is not None for a in it.answers) and len(it.answers) == len(it.parts)
            if r is None:
                return [holds(not full, "an answer that was found is returned", quick)]
            if not full:
                return [holds(False, "no answer while a part has none", quick)]
            return [Claim(T.add(*[a.term() for a in it.answers]), as_term(r), "answer")]

        entry("Integration.integrate_without_heuristics", goq, quick, "search result", call_hook=quick_hook, inline=frozenset([("name", "check_integral_table")]))
    return out


def run(rep):
    return engine.check(
        rep, entries, 6,
        "The state predicates of search nodes are interpreted on every tree of alternatives and joint problems up to two levels and compared with the definition; the classification of a node after the heuristics, "
        "the assembly of answers, the look-up of leaves and the main loop (with the search steps replaced by every possible outcome) are interpreted on all their paths.",
        "solved/failed by definition; an answer only from a solved tree; no answer comes with a warning")
