"""Resolved model of the package under analysis: modules, names, classes (with MRO), functions.

Everything is read from the source text with `ast`; no module of the repository is imported or executed.
"""
import ast
import builtins
import os
import warnings

REPO = os.environ.get("SIMPYCHECK_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor vanished or the sources cannot be analysed: the run must not pass silently."""


def inline_conditions(tree):
    """`c = <test>` directly before `if c:` (or `if not c`, `if c and ...`) is read as `if <test>:` when c is used nowhere else.

    The two spellings mean the same thing, so every analysis sees one of them.
    """
    FN = (ast.FunctionDef, ast.AsyncFunctionDef)
    for fn in [n for n in ast.walk(tree) if isinstance(n, FN)]:
        loads, stores, pinned = {}, {}, set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                pinned.update(n.names)
            elif isinstance(n, ast.Name):
                (loads if isinstance(n.ctx, ast.Load) else stores).setdefault(n.id, []).append(n)
            elif isinstance(n, ast.arg):
                pinned.add(n.arg)
        found = {}
        for n in ast.walk(fn):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for x, y in zip(b, b[1:]):
                    if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(y, ast.If)):
                        continue
                    holder, slot = y, "test"
                    t = y.test
                    while True:
                        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                            holder, slot, t = t, "operand", t.operand
                        elif isinstance(t, ast.BoolOp):
                            holder, slot, t = t, "values", t.values[0]
                        elif isinstance(t, ast.Compare):
                            holder, slot, t = t, "left", t.left
                        else:
                            break
                    if isinstance(t, ast.Name) and t.id == x.targets[0].id:
                        found.setdefault(t.id, []).append((b, x, holder, slot, t))
        for name, hits in found.items():
            if name in pinned or len(hits) != len(loads.get(name, ())) or len(hits) != len(stores.get(name, ())):
                continue
            for b, x, holder, slot, t in hits:
                if slot == "values":
                    holder.values[0] = x.value
                else:
                    setattr(holder, slot, x.value)
                b.remove(x)
    return tree


class Module:
    def __init__(self, name, path, src, is_pkg):
        self.name, self.path, self.is_pkg, self.src = name, path, is_pkg, src
        self.rel = os.path.relpath(path, REPO)
        self.tree = inline_conditions(ast.parse(src, path))
        self.ns = {}  # name -> list of bindings (in textual order)
        self.stars = []
        self.dunder_all = None

    def __repr__(self):
        return f"<module {self.name}>"


class Func:
    def __init__(self, name, node, module, cls=None, parent=None):
        self.name, self.node, self.module, self.cls, self.parent = name, node, module, cls, parent
        if cls is not None:
            self.qual = f"{cls.qual}.{name}"
        elif parent is not None:
            self.qual = f"{parent.qual}.{name}"
        else:
            self.qual = f"{module.name}.{name}"
        self.nested = {}

    @property
    def short(self):
        return self.qual.split(".", 1)[1] if self.qual.startswith("simpy.") else self.qual

    @property
    def decorators(self):
        return getattr(self.node, "decorator_list", [])

    def dec_names(self):
        out = []
        for d in self.decorators:
            if isinstance(d, ast.Call):
                d = d.func
            out.append(d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "?"))
        return out

    def loc(self, node=None):
        return f"{self.module.rel}:{(node or self.node).lineno}"

    def __repr__(self):
        return f"<func {self.qual}>"


class Class:
    def __init__(self, name, node, module, parent=None):
        self.name, self.node, self.module = name, node, module
        self.qual = f"{(parent.qual if parent else module.name)}.{name}"
        self.members = {}  # name -> ('func', Func) | ('assign', expr, stmt) | ('ann', annotation, stmt) | ('class', Class)
        self.order = []  # annotated fields in order
        self.bases = []  # Class or 'ext:dotted'
        self._mro = None
        self.is_dataclass = False
        self.dataclass_opts = {}

    def __repr__(self):
        return f"<class {self.name}>"

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                seqs.append(list(b.mro()) if isinstance(b, Class) else [b])
            seqs.append([b for b in self.bases])
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisBroken(f"inconsistent bases of {self.qual}")
                out.append(c)
                seqs = [[x for x in t if x != c] for t in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def mro_classes(self):
        return [c for c in self.mro() if isinstance(c, Class)]

    def issub(self, other):
        return other in self.mro()

    def lookup(self, name, after=None):
        """Finds (owner, member) along the MRO; `after`: continue behind that class (super())."""
        mro = self.mro_classes()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            m = c.members.get(name)
            if m is not None and m[0] != "ann":
                return c, m
        return None

    def method(self, name):
        r = self.lookup(name)
        return r[1][1] if r and r[1][0] == "func" else None

    def dataclass_fields(self):
        """[(name, annotation, default-expr-or-None, owner)] following dataclass inheritance."""
        out = {}
        for c in reversed(self.mro_classes()):
            if not c.is_dataclass:
                continue
            for n in c.order:
                m = c.members.get(n)
                stmt = c.anns[n]
                if isinstance(stmt.annotation, ast.Name) and stmt.annotation.id == "ClassVar":
                    continue
                if isinstance(stmt.annotation, ast.Subscript) and getattr(stmt.annotation.value, "id", getattr(stmt.annotation.value, "attr", "")) == "ClassVar":
                    continue
                out[n] = (n, stmt.annotation, stmt.value, c)
        return list(out.values())


class Model:
    def __init__(self, repo=None, pkg="simpy"):
        self.repo = repo or REPO
        self.pkg = pkg
        self.root = os.path.join(self.repo, "src", pkg)
        self.modules = {}
        self.funcs = []
        self.classes = []
        if not os.path.isdir(self.root):
            raise AnalysisBroken(f"no package at {self.root}")
        for d, dirs, files in sorted(os.walk(self.root)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    self._load(os.path.join(d, f))
        for m in list(self.modules.values()):
            self._scan_block(m, m.tree.body)
        for c in self.classes:
            self._resolve_bases(c)

    # ---------------------------------------------------------------- loading
    def _load(self, path):
        rel = os.path.relpath(path, os.path.dirname(self.root))
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        with open(path, encoding="utf-8") as f:
            src = f.read()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.modules[name] = Module(name, path, src, is_pkg)
        except SyntaxError as ex:
            raise AnalysisBroken(f"cannot parse {path}: {ex}")

    def _bind(self, m, name, b):
        m.ns.setdefault(name, []).append(b)

    def rel_module(self, m, level, name):
        if level == 0:
            return name or ""
        base = m.name.split(".")
        if not m.is_pkg:
            base = base[:-1]
        base = base[: len(base) - (level - 1)]
        return ".".join(base + ([name] if name else []))

    def _scan_block(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._bind(m, st.name, ("func", self._mkfunc(st.name, st, m)))
            elif isinstance(st, ast.ClassDef):
                self._bind(m, st.name, ("class", self._mkclass(st, m)))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self._bind(m, a.asname, ("modref", a.name))
                    else:
                        self._bind(m, a.name.split(".")[0], ("modref", a.name.split(".")[0]))
            elif isinstance(st, ast.ImportFrom):
                src = self.rel_module(m, st.level, st.module)
                for a in st.names:
                    if a.name == "*":
                        m.stars.append(src)
                    else:
                        self._bind(m, a.asname or a.name, ("from", src, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._bind_target(m, t, st.value, st)
                    if isinstance(t, ast.Name) and t.id == "__all__" and isinstance(st.value, (ast.List, ast.Tuple)):
                        m.dunder_all = [e.value for e in st.value.elts if isinstance(e, ast.Constant)]
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._bind_target(m, st.target, st.value, st)
            elif isinstance(st, ast.AugAssign):
                self._bind_target(m, st.target, None, st)
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for fld in ("body", "orelse", "finalbody"):
                    self._scan_block(m, getattr(st, fld, []) or [])
                for h in getattr(st, "handlers", []):
                    self._scan_block(m, h.body)
                if isinstance(st, ast.For):
                    self._bind_target(m, st.target, None, st)

    def _bind_target(self, m, t, value, st):
        if isinstance(t, ast.Name):
            self._bind(m, t.id, ("assign", m, value, st))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                v = value.elts[i] if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else None
                self._bind_target(m, e, v, st)
        elif isinstance(t, ast.Starred):
            self._bind_target(m, t.value, None, st)

    def _mkfunc(self, name, node, m, cls=None, parent=None):
        f = Func(name, node, m, cls, parent)
        self.funcs.append(f)
        self._scan_nested(f, node)
        return f

    def _scan_nested(self, f, node):
        lam = 0
        stack = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
        while stack:
            n = stack.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f.nested[n.name] = self._mkfunc(n.name, n, f.module, None, f)
                continue
            if isinstance(n, ast.ClassDef):
                c = self._mkclass(n, f.module)
                continue
            if isinstance(n, ast.Lambda):
                lam += 1
                g = Func(f"<lambda{lam}>", n, f.module, None, f)
                self.funcs.append(g)
                f.nested.setdefault("__lambdas__", []).append(g) if False else None
                self._scan_nested(g, n)
                continue
            stack = list(ast.iter_child_nodes(n)) + stack

    def _mkclass(self, node, m, parent=None):
        c = Class(node.name, node, m, parent)
        c.anns = {}
        self.classes.append(c)
        for d in node.decorator_list:
            base = d.func if isinstance(d, ast.Call) else d
            nm = base.attr if isinstance(base, ast.Attribute) else getattr(base, "id", "")
            if nm == "dataclass":
                c.is_dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if isinstance(k.value, ast.Constant):
                            c.dataclass_opts[k.arg] = k.value.value
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.members[st.name] = ("func", self._mkfunc(st.name, st, m, cls=c))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = ("assign", st.value, st)
                        if isinstance(st.value, ast.Lambda):
                            g = Func(f"{t.id}<lambda>", st.value, m, cls=c)
                            self.funcs.append(g)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.order.append(st.target.id)
                c.anns[st.target.id] = st
                if st.value is not None:
                    c.members[st.target.id] = ("assign", st.value, st)
                else:
                    c.members.setdefault(st.target.id, ("ann", st.annotation, st))
            elif isinstance(st, ast.ClassDef):
                c.members[st.name] = ("class", self._mkclass(st, m, c))
        return c

    def _resolve_bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            if r and r[0] == "class":
                c.bases.append(r[1])
            elif r and r[0] == "ext":
                c.bases.append("ext:" + r[1])
            elif r and r[0] == "builtin":
                c.bases.append("ext:" + r[1])
            else:
                c.bases.append("ext:?" + ast.unparse(b))

    # ---------------------------------------------------------------- names
    def exported(self, modname):
        """Names a star import of that module provides."""
        m = self.modules.get(modname)
        if m is None:
            return None
        if m.dunder_all is not None:
            return list(m.dunder_all)
        out = [n for n in m.ns if not n.startswith("_")]
        for s in m.stars:
            out += self.exported(s) or []
        return out

    def resolve(self, m, name, seen=()):
        """-> ('func',Func) ('class',Class) ('assign',Module,expr,stmt) ('module',name) ('ext',dotted) ('builtin',name) or None"""
        if (m.name, name) in seen:
            return None
        seen = seen + ((m.name, name),)
        if name in m.ns:
            b = m.ns[name][-1]
            if b[0] == "from":
                return self.resolve_from(b[1], b[2], seen)
            if b[0] == "modref":
                return ("module", b[1]) if b[1].split(".")[0] == self.pkg else ("ext", b[1])
            return b
        for s in reversed(m.stars):
            sm = self.modules.get(s)
            if sm is not None and name in (self.exported(s) or []):
                r = self.resolve(sm, name, seen)
                if r:
                    return r
        if name in ("__name__", "__file__", "__doc__"):
            return ("builtin", name)
        if hasattr(builtins, name):
            return ("builtin", name)
        return None

    def resolve_from(self, src, name, seen=()):
        sm = self.modules.get(src)
        if sm is not None:
            r = self.resolve(sm, name, seen) if (name in sm.ns or sm.stars) else None
            if r and r[0] != "builtin":
                return r
            if f"{src}.{name}" in self.modules:
                return ("module", f"{src}.{name}")
            return ("missing", f"{src}.{name}")
        if src.split(".")[0] == self.pkg:
            return ("missing", f"{src}.{name}")
        return ("ext", f"{src}.{name}")

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r is None:
                return None
            if r[0] == "ext":
                return ("ext", f"{r[1]}.{e.attr}")
            if r[0] == "module":
                return self.resolve_from(r[1], e.attr)
        return None

    # ---------------------------------------------------------------- lookups
    def cls(self, name, required=True):
        for c in self.classes:
            if c.name == name:
                return c
        if required:
            raise AnalysisBroken(f"class {name} not found in {self.pkg}")
        return None

    def func(self, name, required=True):
        """Top-level function by bare name, searched in the whole package."""
        for f in self.funcs:
            if f.cls is None and f.parent is None and f.name == name:
                return f
        if required:
            raise AnalysisBroken(f"function {name} not found in {self.pkg}")
        return None

    def subclasses(self, base):
        return [c for c in self.classes if c is not base and c.issub(base)]

    def abstract_members(self, c):
        """Names of abstract methods not overridden (as ABCMeta computes them)."""
        out = set()
        for k in reversed(c.mro_classes()):
            for n, mem in k.members.items():
                if mem[0] == "ann":
                    continue
                is_abs = mem[0] == "func" and any(d in ("abstractmethod", "abstractproperty") for d in mem[1].dec_names())
                (out.add if is_abs else out.discard)(n)
        return {n for n in out if not self._concrete(c, n)}

    def _concrete(self, c, n):
        r = c.lookup(n)
        if r is None:
            return False
        mem = r[1]
        return not (mem[0] == "func" and any(d in ("abstractmethod", "abstractproperty") for d in mem[1].dec_names()))

    def concrete_expr_classes(self):
        """Leaf kinds: Expr subclasses that are instantiated somewhere (have no abstract members) and are not bases only."""
        E = self.cls("Expr")
        out = []
        for c in self.subclasses(E):
            if self.abstract_members(c):
                continue
            out.append(c)
        return out


_cached = None


def get_model():
    global _cached
    if _cached is None:
        _cached = Model()
    return _cached
