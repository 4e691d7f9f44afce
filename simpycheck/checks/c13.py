"""C13: variables introduced by substitutions are fresh and do not occur in answers."""
import ast

from ..astutil import callees, own_nodes, resolve, scope
from ..model import Func, get_model
from ..vflow import engine, steps
from ..vflow import terms as T
from ..vflow.engine import Claim, Entry
from ..vflow.values import Done, ExprV, ObjV, Undecided
from . import c11


def holds(ok, what, f=None):
    return Claim(T.ONE, T.ONE if ok else T.ZERO, what, loc=f.loc(f.node) if f is not None else None)


def answer_claims(it, s):
    """No introduced variable in the answer; every sub-problem in another variable is in an introduced one."""
    root = it.final[0]
    out = c11.leaks(it, s)

    def walk(n):
        for c in steps.children(it, n):
            v, pv = it.getattr(c, "var"), it.getattr(n, "var")
            if v.rep() is not pv.rep():
                out.append(holds(v.rep().uid in it.world.fresh_syms, "a sub-problem in another variable is posed in a freshly named one"))
                # what the answer writes for the introduced variable
                tr = it.getattr(c, "transform")
                q = tr.f.get("_u") if isinstance(tr, ObjV) else None
                if isinstance(q, ExprV) and v.rep().uid in it.world.fresh_syms:
                    out.append(Claim(T.ZERO, ("D", q.term(), ("a", v.rep().uid)), "change of what is written back for an introduced variable with that variable"))
            walk(c)

    walk(root)
    return out or [holds(True, "no variable introduced")]


def entries():
    m = get_model()
    out = c11.entries(answer_claims)
    usub, node_cls = m.cls("USub"), m.cls("Node")

    def entry(name, go, f=None, **kw):
        out.append(Entry(name, go, f, "helper variable", extra=steps.install, call_hook=steps.method_hook, builtin_hook=steps.random_hook, construct_hook=steps.fresh_hook, no_side=True, paths=150, secs=8, max_rec=8, structured=True, **kw))

    # steps that pose a sub-problem in another variable: undone one inside the other
    subs = [c for c in c11.transforms() if usub in c.mro()]
    back = m.cls("Integration").lookup("_go_backwards")
    for c in subs:
        f = c.lookup("backward")[1][1]

        def go(it, c=c):
            w = it.world
            x = w.symbol("x")
            it.step_var = x
            w.var(x.uid)
            u, v = steps.f_generate(it, (), {}), steps.f_generate(it, (), {})
            root = it.construct(node_cls, [w.atom(label="e"), x], {})

            def below(n, var, old, label):
                tr = it.construct(c, [], {})
                q = w.atom(label=label)
                w.fresh_dep.add((q.uid, old.uid))
                it.setattr(tr, "_u", q)
                k = it.construct(node_cls, [w.atom(label="d"), var, tr, n], {})
                it.getattr(n, "children").items.append(k)
                return k

            a = below(root, u, x, "U")
            b = below(a, v, u, "V")
            F = w.atom(label="F")
            w.fresh_dep.add((F.uid, v.uid))
            it.setattr(b, "type", "SOLUTION")
            it.setattr(b, "solution", F)
            it.call(it.func_value(back[1][1]), [root], {})
            s = it.getattr(root, "solution")
            if not isinstance(s, ExprV):
                raise Undecided("no solution")
            it.final = (root, s)
            return c11.leaks(it, s)

        entry(f"two nested {c.name} steps undone", go, f)

    # each use of a step introduces a new variable
    for c in subs:
        l = c.lookup("forward")
        if not l or l[1][0] != "func":
            continue

        def gon(it, c=c, f=l[1][1]):
            vs = []
            for i in range(2):
                it.shape_env = {k: v for k, v in it.__dict__.get("shape_env", {}).items() if k == "x"}
                root, x, e = steps.start(it)
                if steps.do_step(it, c, root) is None:
                    raise Done()
                vs += [it.getattr(k, "var").rep() for k in steps.children(it, root)]
            vs = [v for v in vs if v is not x.rep()]
            if len(vs) < 2:
                raise Done()
            return [holds(len({v.uid for v in vs}) == len(vs), "a second use of the step introduces another variable", f)]

        entry(f"{c.name} used twice", gon, l[1][1])

    # the names
    for f in m.funcs:
        if f.cls is None and f.parent is None and f.name in ("generate_intermediate_var",):
            def gog(it, f=f):
                it.step_var = it.world.symbol("x")
                names = []
                for i in range(2):
                    v = it.call(it.func_value(f), [], {})
                    if not isinstance(v, ExprV):
                        raise Undecided("not a symbol")
                    names.append(it.fresh_names.get(v.rep().uid))
                if any(n is None for n in names):
                    return [holds(False, "the name of an introduced variable is made up for it", f)]
                chars = [sum(1 for p in n if not isinstance(p, str) and p[0] == "rnd") for n in names]
                other = [any(not isinstance(p, str) and p[0] != "rnd" for p in n) for n in names]
                return [
                    holds(names[0] != names[1], "two introduced variables have different names", f),
                    holds(all(o or c >= 6 for c, o in zip(chars, other)), "the made-up part of the name is long enough not to repeat", f),
                    holds(all(not (isinstance(p, str) and (" " in p)) for n in names for p in n), "one name", f),
                ]

            entry(f.name, gog, f)
    return out


RANDOM = {"random", "secrets", "uuid", "os.urandom", "numpy.random"}


def reaches_random(f, seen):
    """Does f (or what it calls) draw random text?"""
    if f in seen:
        return False
    seen.add(f)
    for n in own_nodes(f.node, include_nested=True):
        if isinstance(n, (ast.Name, ast.Attribute)):
            r = resolve(f, n)
            if r and r[0] in ("ext", "module", "import"):
                d = str(r[1])
                if any(d == k or d.startswith(k + ".") for k in RANDOM):
                    return True
        if isinstance(n, ast.Call) and any(isinstance(g, Func) and reaches_random(g, seen) for g in callees(f, n, cha=False)):
            return True
    return False


def sources(f, e, depth=0):
    """The package functions whose result e is."""
    if depth > 4 or e is None:
        return
    if isinstance(e, ast.Call):
        for g in callees(f, e, cha=False):
            if isinstance(g, Func):
                yield g, e
    elif isinstance(e, ast.Name):
        for v in scope(f).assigned.get(e.id, []):
            yield from sources(f, v, depth + 1)


def name_rule(rep, m):
    """A function without arguments that names a sub-problem's variable must draw the name at random: nothing else keeps it apart from the caller's symbols."""
    node_cls = m.cls("Node")
    for c in c11.transforms():
        for f in [g for k in c.mro_classes() for g in m.funcs if g.cls is k and g.name == "forward"]:
            for n in own_nodes(f.node, include_nested=True):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name)):
                    continue
                r = resolve(f, n.func)
                if not r or r[1] is not node_cls:
                    continue
                var = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "var"), None)
                for g, call in sources(f, var):
                    rep.count("variables introduced")
                    if call.args or call.keywords or g.cls is not None:
                        continue
                    if not reaches_random(g, set()):
                        rep.find("helper variable name", g.short, g.loc(g.node), f"{g.short} names the variable of a sub-problem (in {f.short}) without arguments and without random text: the name can be one the caller already uses")


def run(rep):
    name_rule(rep, get_model())
    return engine.check(
        rep, entries, 4,
        "Each step of the integrator is interpreted abstractly forward and backward (as for C11); the assembled answer must not vary with any variable the step introduced, a sub-problem in another variable must be posed in an introduced one, "
        "two nested substitutions must both be undone, two uses must introduce two variables, and the names must be made up from enough random text.",
        "the answer has no introduced variable; introduced variables are fresh")
