"""Definite assignment, path-sensitively: which names may be read before anything was bound to them.

Each path state holds, per local name, whether it is bound (with its value when that is a constant) and the truth of the
conditions already tested, so `if found: use(value)` after `if c: found, value = True, v` is not reported.  Assumptions that
can only hide a report: a `for` loop runs at least once; a condition keeps its truth while none of its names is rebound;
a chain of two or more isinstance tests on one object is complete; parameters annotated with a Literal, or given constants by
every caller, have one of those values.
"""
import ast

from .astutil import FUNC, own_nodes, params, target_names

UNBOUND, BOUND, MAYBE = "unbound", "bound", "maybe"
LIMIT = 600


class TooMany(Exception):
    pass


class State:
    __slots__ = ("env", "facts", "_h")

    def __init__(self, env, facts):
        self.env, self.facts = env, facts
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.env.items()), frozenset((k, v[0]) for k, v in self.facts.items()))
        return self._h

    def set(self, name, val):
        env = dict(self.env)
        env[name] = val
        facts = {k: v for k, v in self.facts.items() if name not in v[1]}
        return State(env, facts)

    def fact(self, key, truth, names):
        f = dict(self.facts)
        f[key] = (truth, names)
        return State(self.env, f)


def dedupe(states):
    out = {}
    for s in states:
        out.setdefault(s.key(), s)
    if len(out) > LIMIT:  # forget the facts
        out2 = {}
        for s in out.values():
            t = State(s.env, {})
            out2.setdefault(t.key(), t)
        if len(out2) > LIMIT:
            raise TooMany()
        return list(out2.values())
    return list(out.values())


def const_of(e):
    if isinstance(e, ast.Constant):
        return ("c", type(e.value).__name__, repr(e.value))
    return BOUND


class Definite:
    """`node`: a function, lambda or module; `domains`: parameter -> constants it can be."""

    def __init__(self, node, domains=None, only=None):
        self.unbound = {}  # Name node -> name
        self.node = node
        self.names = self.collect(node)
        states = [State({n: UNBOUND for n in self.names}, {})]
        if isinstance(node, FUNC):
            for p in params(node):
                if p in (domains or {}):
                    states = [s.set(p, c) for s in states for c in domains[p]]
                else:
                    states = [s.set(p, BOUND) for s in states]
        self.loops, self.trys = [], []
        self.decided = True
        try:
            if isinstance(node, ast.Lambda):
                for s in states:
                    self.expr(node.body, s)
            else:
                self.block(node.body, states)
        except TooMany:
            self.decided = False
            self.unbound = {}

    def collect(self, node):
        outer, out, comp = set(), set(), set()
        it = list(own_nodes(node)) if isinstance(node, FUNC) else self.module_nodes(node)
        for n in it:
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                outer.update(n.names)
            if isinstance(n, ast.comprehension):
                comp.update(ast.walk(n.target))
        for n in it:
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n not in comp:
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name).split(".")[0] for a in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        if not isinstance(node, FUNC) and any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in it):
            return set()
        return out - outer

    @staticmethod
    def module_nodes(node):
        out, stack = [], list(node.body)
        while stack:
            n = stack.pop()
            out.append(n)
            if isinstance(n, FUNC + (ast.ClassDef,)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        return out

    # ------------------------------------------------------------ expressions
    def expr(self, e, s, bound=()):
        """Evaluates e in state s -> state (walrus bindings); notes unbound reads."""
        if e is None:
            return s
        if isinstance(e, ast.Name):
            if e.id not in bound and s.env.get(e.id) == UNBOUND:
                self.unbound[e] = e.id
                s = s.set(e.id, BOUND)  # one report per path
            return s
        if isinstance(e, FUNC):
            for d in list(e.args.defaults) + [x for x in e.args.kw_defaults if x is not None]:
                s = self.expr(d, s, bound)
            return s
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = tuple(bound)
            for g in e.generators:
                s = self.expr(g.iter, s, b)
                b = b + tuple(target_names(g.target))
                for c in g.ifs:
                    s = self.expr(c, s, b)
            for c in (e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,):
                s = self.expr(c, s, b)
            return s
        if isinstance(e, ast.NamedExpr):
            s = self.expr(e.value, s, bound)
            return s.set(e.target.id, const_of(e.value)) if e.target.id not in bound else s
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            # which parts are evaluated depends on the conditions; bindings inside are rare: merge by keeping the first state
            if isinstance(e, ast.IfExp):
                outs = [self.expr(e.body if t else e.orelse, x, bound) for t, x in self.test(e.test, s, bound)]
            else:
                outs = [x for t, x in self.test(e, s, bound)]
            return outs[0] if outs else s
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                s = self.expr(c, s, bound)
            elif isinstance(c, ast.keyword):
                s = self.expr(c.value, s, bound)
            elif isinstance(c, ast.Slice):
                for x in (c.lower, c.upper, c.step):
                    s = self.expr(x, s, bound)
        return s

    def test(self, e, s, bound=()):
        """[(truth, state)]"""
        if isinstance(e, ast.Constant):
            return [(bool(e.value), s)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, x) for t, x in self.test(e.operand, s, bound)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            live, out = [s], []
            for i, v in enumerate(e.values):
                nxt = []
                for x in live:
                    for t, y in self.test(v, x, bound):
                        if t == stop or i == len(e.values) - 1:
                            out.append((t, y))
                        else:
                            nxt.append(y)
                live = nxt
            if len(out) > 60:
                d = {}
                for t, x in out:
                    d.setdefault((t, State(x.env, {}).key()), (t, State(x.env, {})))
                out = list(d.values())
            return out
        if isinstance(e, ast.NamedExpr):
            s = self.expr(e, s, bound)
            return self.test(ast.Name(id=e.target.id, ctx=ast.Load()), s, bound)
        s = self.expr(e, s, bound)
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        if isinstance(e, ast.Name) and e.id not in bound:
            v = s.env.get(e.id)
            if isinstance(v, tuple):
                return [(v[2] not in ("None", "False", "0", "''", "0.0"), s)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant):
            v, c = s.env.get(e.left.id), const_of(e.comparators[0])
            op = e.ops[0]
            eq = isinstance(op, (ast.Is, ast.Eq))
            if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                if isinstance(v, tuple):
                    return [((v == c) == eq, s)]
                key = ("eq", e.left.id, c)
                if key in s.facts:
                    return [(s.facts[key][0] == eq, s)]
                if v == BOUND and c[2] == "None" and e.left.id in self.names and e.left.id not in (params(self.node) if isinstance(self.node, FUNC) else ()) and self.never_none(e.left.id):
                    return [(not eq, s)]
                return [(eq, s.fact(key, True, {e.left.id})), (not eq, s.fact(key, False, {e.left.id}))]
        key = ast.dump(e)
        if key in s.facts:
            return [(s.facts[key][0], s)]
        return [(True, s.fact(key, True, names)), (False, s.fact(key, False, names))]

    def never_none(self, name):
        """Every non-constant binding of the local is a value that a None-test distinguishes (arithmetic, container displays, loop counters)."""
        return self._nn(name)

    def _nn(self, name):
        for n in (own_nodes(self.node) if isinstance(self.node, FUNC) else self.module_nodes(self.node)):
            if isinstance(n, ast.Assign) and any(name in target_names(t) for t in n.targets):
                v = n.value
                if not isinstance(v, (ast.Constant, ast.BinOp, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.JoinedStr, ast.Compare, ast.Lambda)):
                    return False
                if len(n.targets) == 1 and not isinstance(n.targets[0], ast.Name):
                    return False
            elif isinstance(n, (ast.For, ast.AsyncFor)) and name in target_names(n.target):
                return False
            elif isinstance(n, ast.NamedExpr) and n.target.id == name or isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and not isinstance(n.value, (ast.Constant, type(None))):
                return False
        return True

    # ------------------------------------------------------------ statements
    def bind(self, t, s, value=None):
        if isinstance(t, ast.Name):
            return s.set(t.id, const_of(value) if value is not None else BOUND)
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for x, v in zip(t.elts, vs):
                s = self.bind(x, s, v)
            return s
        if isinstance(t, ast.Starred):
            return self.bind(t.value, s)
        return self.expr(t, s)

    def block(self, stmts, states):
        for st in stmts:
            if not states:
                return []
            for h in self.trys:
                if can_raise(st):
                    h.extend(states)
            states = dedupe(self.stmt(st, states))
        return states

    def split(self, test, states):
        yes, no = [], []
        for s in states:
            for t, x in self.test(test, s):
                (yes if t else no).append(x)
        return dedupe(yes), dedupe(no)

    def stmt(self, st, states):
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            out = []
            for s in states:
                if st.value is None:
                    out.append(s)
                    continue
                s = self.expr(st.value, s)
                for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                    s = self.bind(t, s, st.value)
                out.append(s)
            return out
        if isinstance(st, ast.AugAssign):
            out = []
            for s in states:
                s = self.expr(st.value, s)
                if isinstance(st.target, ast.Name):
                    if s.env.get(st.target.id) == UNBOUND:
                        self.unbound[st.target] = st.target.id
                    s = s.set(st.target.id, BOUND) if st.target.id in s.env else s
                else:
                    s = self.expr(st.target, s)
                out.append(s)
            return out
        if isinstance(st, ast.If):
            yes, no = self.split(st.test, states)
            out = self.block(st.body, yes) + self.block(st.orelse, no)
            subj = self.isinstance_chain(st)
            if subj and not self.chain_else(st):
                # the fall-through of a chain of isinstance tests: assumed complete
                bound_in = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                res = []
                for s in out:
                    for n in bound_in:
                        if s.env.get(n) == UNBOUND:
                            s = s.set(n, MAYBE)
                    res.append(s)
                out = res
            return out
        if isinstance(st, (ast.For, ast.AsyncFor)):
            states = [self.expr(st.iter, s) for s in states]
            seen, cur, ends, brks = {}, states, [], []
            names = set(target_names(st.target))
            for _ in range(4):
                body = dedupe([self.bind(st.target, s) for s in cur])
                self.loops.append([[], []])
                end = self.block(st.body, body)
                brk, cont = self.loops.pop()
                end = dedupe(end + cont)
                brks += brk
                # the next round tests other elements: conditions on what the loop binds are forgotten by bind; calls may answer differently
                end = [State(s.env, {k: v for k, v in s.facts.items() if not (v[1] & names)}) for s in end]
                new = [s for s in dedupe(end) if s.key() not in seen]
                for s in new:
                    seen[s.key()] = s
                ends += new
                if not new:
                    break
                cur = new
            ends = dedupe(ends)
            out = self.block(st.orelse, ends) if st.orelse else ends
            return out + brks
        if isinstance(st, ast.While):
            seen, cur, outs, brks = {}, states, [], []
            assigned = {n.id for x in st.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for _ in range(4):
                yes, no = self.split(st.test, cur)
                outs += no
                self.loops.append([[], []])
                end = self.block(st.body, yes)
                brk, cont = self.loops.pop()
                brks += brk
                # what the body changes through calls is unknown: a second test of the same condition may differ
                end = [State(s.env, {}) for s in end + cont]
                new = [s for s in dedupe(end) if s.key() not in seen]
                for s in new:
                    seen[s.key()] = s
                if not new:
                    break
                cur = new
            outs = dedupe(outs)
            return (self.block(st.orelse, outs) if st.orelse else outs) + brks
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                states = [self.expr(i.context_expr, s) for s in states]
                if i.optional_vars is not None:
                    states = [self.bind(i.optional_vars, s) for s in states]
            return self.block(st.body, states)
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            self.trys.append([])
            end = self.block(st.body, states)
            at = dedupe([State(s.env, {}) for s in self.trys.pop()])
            if st.orelse:
                end = self.block(st.orelse, end)
            out = list(end)
            for h in st.handlers:
                hs = at
                if h.type is not None:
                    hs = [self.expr(h.type, s) for s in hs]
                if h.name:
                    hs = [s.set(h.name, BOUND) for s in hs]
                r = self.block(h.body, dedupe(hs))
                out += [s.set(h.name, UNBOUND) for s in r] if h.name else r
            if st.finalbody:
                self.block(st.finalbody, dedupe(at + out))
                return self.block(st.finalbody, dedupe(out))
            return out
        if isinstance(st, ast.Return):
            for s in states:
                self.expr(st.value, s)
            return []
        if isinstance(st, ast.Raise):
            for s in states:
                self.expr(st.cause, self.expr(st.exc, s))
            return []
        if isinstance(st, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][0 if isinstance(st, ast.Break) else 1].extend(states)
            return []
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out = []
            for s in states:
                for d in st.decorator_list + list(st.args.defaults) + [x for x in st.args.kw_defaults if x is not None]:
                    s = self.expr(d, s)
                out.append(s.set(st.name, BOUND))
            return out
        if isinstance(st, ast.ClassDef):
            out = []
            for s in states:
                for d in st.decorator_list + st.bases + [k.value for k in st.keywords]:
                    s = self.expr(d, s)
                out.append(s.set(st.name, BOUND))
            return out
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                states = [s.set((a.asname or a.name).split(".")[0], BOUND) for s in states]
            return states
        if isinstance(st, ast.Delete):
            out = []
            for s in states:
                for t in st.targets:
                    s = self.expr(t, s)
                    if isinstance(t, ast.Name):
                        s = s.set(t.id, UNBOUND)
                out.append(s)
            return out
        if isinstance(st, ast.Assert):
            yes, no = self.split(st.test, states)
            for s in no:
                self.expr(st.msg, s)
            return yes
        if isinstance(st, ast.Expr):
            return [self.expr(st.value, s) for s in states]
        if type(st).__name__ == "Match":
            out = list(states)
            for c in st.cases:
                cs = [self.expr(st.subject, s) for s in states]
                for n in ast.walk(c.pattern):
                    nm = getattr(n, "name", None) or getattr(n, "rest", None)
                    if isinstance(nm, str):
                        cs = [s.set(nm, BOUND) for s in cs]
                out += self.block(c.body, cs)
            return out
        return states

    # ------------------------------------------------------------ isinstance chains
    def isinstance_chain(self, st):
        subj, n = None, 0
        while True:
            t = st.test
            if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2):
                return None
            k = ast.dump(t.args[0])
            if subj is not None and k != subj:
                return None
            subj, n = k, n + 1
            if len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If):
                st = st.orelse[0]
                continue
            return subj if n >= 2 else None

    def chain_else(self, st):
        while len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If):
            st = st.orelse[0]
        return bool(st.orelse)


def can_raise(st):
    if isinstance(st, (ast.Pass, ast.Break, ast.Continue, ast.FunctionDef, ast.Global, ast.Nonlocal)):
        return False
    if isinstance(st, ast.Assign) and isinstance(st.value, (ast.Constant, ast.Name)) and all(isinstance(t, ast.Name) for t in st.targets):
        return False
    return True
