"""Reaching definitions over the syntax tree of one function.

reaching(f) -> dict: Name node (Load, or Store/Del target of a mutation) -> frozenset of definitions.
A definition is ("param", name), ("unbound", name) or ("def", statement node, value expression or None, kind)
with kind "=" (plain assignment of `value` to the name), "for", "with", "unpack", "aug", "import", "def", "except", "walrus".
Names of enclosing functions have no entry.  The analysis is path-insensitive except that
 - a branch that leaves the function or the loop contributes nothing after it,
 - `while True` only leaves through break.
"""
import ast

from .astutil import FUNC, params, target_names

_cache = {}


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] | v if k in out else v
    return out


def is_true(e):
    return isinstance(e, ast.Constant) and bool(e.value)


class Reaching:
    def __init__(self, f):
        self.f = f
        self.use = {}
        self.locals = set()
        node = f.node
        self.collect(node)
        env = {n: frozenset([("unbound", n)]) for n in self.locals}
        for p in params(node):
            env[p] = frozenset([("param", p)])
        self.loops = []
        self.trys = []
        if isinstance(node, ast.Lambda):
            self.expr(node.body, env)
        else:
            self.block(node.body, env)

    # ------------------------------------------------------------ which names are local
    def collect(self, node):
        from .astutil import own_nodes

        outer = set()
        for n in own_nodes(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                outer.update(n.names)
        comp_targets = set()
        for n in own_nodes(node):
            if isinstance(n, ast.comprehension):
                for t in ast.walk(n.target):
                    comp_targets.add(t)
        for n in own_nodes(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n not in comp_targets:
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.locals.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= outer
        self.locals |= set(params(node))

    # ------------------------------------------------------------ expressions
    def note(self, n, env):
        if n.id in self.locals:
            self.use[n] = self.use.get(n, frozenset()) | env.get(n.id, frozenset([("unbound", n.id)]))

    def expr(self, e, env, bound=()):
        """Visits an expression; names bound by a comprehension are not ours."""
        if e is None:
            return
        if isinstance(e, ast.Name):
            if e.id not in bound:
                self.note(e, env)
            return
        if isinstance(e, FUNC):
            # the body runs later: it may see any definition of the enclosing function (not recorded)
            a = e.args
            for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
                self.expr(d, env, bound)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = tuple(bound)
            for g in e.generators:
                self.expr(g.iter, env, b)
                b = b + tuple(target_names(g.target))
                for c in g.ifs:
                    self.expr(c, env, b)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, env, b)
                self.expr(e.value, env, b)
            else:
                self.expr(e.elt, env, b)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, env, bound)
            if e.target.id not in bound:
                env[e.target.id] = frozenset([("def", e, e.value, "walrus")])
            return
        if isinstance(e, ast.BoolOp):
            self.expr(e.values[0], env, bound)
            sub = dict(env)
            for v in e.values[1:]:
                self.expr(v, sub, bound)
            for k, v in sub.items():
                env[k] = env.get(k, frozenset()) | v
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, env, bound)
            a, b = dict(env), dict(env)
            self.expr(e.body, a, bound)
            self.expr(e.orelse, b, bound)
            env.update(join(a, b))
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env, bound)
            elif isinstance(c, (ast.keyword, ast.FormattedValue)):
                self.expr(c.value, env, bound)
            elif isinstance(c, ast.Slice):
                for x in (c.lower, c.upper, c.step):
                    self.expr(x, env, bound)

    def bind(self, t, env, st, value, kind):
        if isinstance(t, ast.Name):
            if t.id in self.locals:
                env[t.id] = frozenset([("def", st, value, kind)])
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if kind == "=" and isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(value.elts)) else None
            for i, x in enumerate(t.elts):
                self.bind(x, env, st, vs[i] if vs else None, "=" if vs else "unpack")
        elif isinstance(t, ast.Starred):
            self.bind(t.value, env, st, None, "unpack")
        else:
            self.expr(t, env)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for st in stmts:
            if env is None:
                return None
            for h in self.trys:
                h.append(dict(env))
            env = self.stmt(st, env)
            if env is not None:
                for h in self.trys:
                    h.append(dict(env))
        return env

    def stmt(self, st, env):
        env = dict(env)
        if isinstance(st, ast.Assign):
            self.expr(st.value, env)
            for t in st.targets:
                self.bind(t, env, st, st.value, "=")
            return env
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.expr(st.value, env)
                self.bind(st.target, env, st, st.value, "=")
            return env
        if isinstance(st, ast.AugAssign):
            self.expr(st.value, env)
            if isinstance(st.target, ast.Name):
                self.note(st.target, env)
                if st.target.id in self.locals:
                    env[st.target.id] = frozenset([("def", st, None, "aug")]) | frozenset(d for d in env.get(st.target.id, ()) if d[0] != "unbound")
            else:
                self.expr(st.target, env)
            return env
        if isinstance(st, ast.If):
            self.expr(st.test, env)
            a = self.block(st.body, dict(env)) if not (isinstance(st.test, ast.Constant) and not st.test.value) else None
            b = self.block(st.orelse, dict(env)) if not is_true(st.test) else None
            return join(a, b)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.expr(st.iter, env)
            start = env
            for _ in range(3):
                body = dict(start)
                self.bind(st.target, body, st, None, "for")
                self.loops.append([[], []])
                end = self.block(st.body, body)
                brk, cont = self.loops.pop()
                for c in cont:
                    end = join(end, c)
                nxt = join(start, end)
                if nxt == start:
                    break
                start = nxt
            out = self.block(st.orelse, dict(start)) if st.orelse else dict(start)
            for b in brk:
                out = join(out, b)
            return out
        if isinstance(st, ast.While):
            start = env
            for _ in range(3):
                cur = dict(start)
                self.expr(st.test, cur)
                self.loops.append([[], []])
                end = self.block(st.body, dict(cur))
                brk, cont = self.loops.pop()
                for c in cont:
                    end = join(end, c)
                nxt = join(start, end)
                if nxt == start:
                    break
                start = nxt
            cur = dict(start)
            self.expr(st.test, cur)
            out = None if is_true(st.test) else (self.block(st.orelse, cur) if st.orelse else cur)
            for b in brk:
                out = join(out, b)
            return out
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, env, st, None, "with")
            return self.block(st.body, env)
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            seen = [dict(env)]
            self.trys.append(seen)
            end = self.block(st.body, dict(env))
            self.trys.pop()
            at = None
            for s in seen:
                at = join(at, s)
            if end is not None and st.orelse:
                end = self.block(st.orelse, end)
            out = end
            for h in st.handlers:
                he = dict(at)
                self.expr(h.type, he)
                if h.name:
                    he[h.name] = frozenset([("def", h, None, "except")])
                r = self.block(h.body, he)
                out = join(out, r)
            if st.finalbody:
                fin = self.block(st.finalbody, dict(join(out, at)))
                if out is None or fin is None:
                    return None
                return self.block(st.finalbody, dict(out))
            return out
        if isinstance(st, ast.Return):
            self.expr(st.value, env)
            return None
        if isinstance(st, ast.Raise):
            self.expr(st.exc, env)
            self.expr(st.cause, env)
            return None
        if isinstance(st, ast.Break):
            if self.loops:
                self.loops[-1][0].append(env)
            return None
        if isinstance(st, ast.Continue):
            if self.loops:
                self.loops[-1][1].append(env)
            return None
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in st.decorator_list:
                self.expr(d, env)
            for d in list(st.args.defaults) + [x for x in st.args.kw_defaults if x is not None]:
                self.expr(d, env)
            env[st.name] = frozenset([("def", st, None, "def")])
            return env
        if isinstance(st, ast.ClassDef):
            for d in st.decorator_list + st.bases:
                self.expr(d, env)
            env[st.name] = frozenset([("def", st, None, "def")])
            return env
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                env[(a.asname or a.name).split(".")[0]] = frozenset([("def", st, None, "import")])
            return env
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.note(t, env)
                    env[t.id] = frozenset([("unbound", t.id)])
                else:
                    self.expr(t, env)
            return env
        if isinstance(st, ast.Assert):
            self.expr(st.test, env)
            self.expr(st.msg, dict(env))
            return env
        if isinstance(st, ast.Expr):
            self.expr(st.value, env)
            return env
        if type(st).__name__ == "Match":
            self.expr(st.subject, env)
            out = dict(env)
            for c in st.cases:
                ce = dict(env)
                for n in ast.walk(c.pattern):
                    nm = getattr(n, "name", None) or getattr(n, "rest", None)
                    if isinstance(nm, str):
                        ce[nm] = frozenset([("def", st, None, "unpack")])
                self.expr(c.guard, ce)
                out = join(out, self.block(c.body, ce))
            return out
        return env


def reaching(f):
    if f not in _cache:
        _cache[f] = Reaching(f).use
    return _cache[f]
