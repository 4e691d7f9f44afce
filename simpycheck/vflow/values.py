"""Abstract values and the per-path world (facts, leaves, sampling side conditions)."""
import itertools
from fractions import Fraction

from ..model import Class, Func, get_model
from . import terms as T


class Undecided(Exception):
    """The domain cannot represent what happens on this path."""


class Infeasible(Exception):
    """The facts of this path contradict each other."""


class Done(Exception):
    """The rest of this path is of no interest."""


class Raised(Exception):
    """The analysed code raises on this path."""

    def __init__(self, cls, args=(), loc=""):
        super().__init__(cls, loc)
        self.exc, self.eargs, self.loc = cls, args, loc


class PList:
    __slots__ = ("items", "origin")

    def __init__(self, items=(), origin=None):
        self.items = list(items)
        self.origin = origin

    def __repr__(self):
        return f"PList{self.items}"


class Arr(PList):
    """A numpy object array (1-D, or 2-D as a list of 1-D rows)."""

    __slots__ = ()

    @property
    def nested(self):
        return bool(self.items) and isinstance(self.items[0], PList)


class PSet:
    def __init__(self, items=()):
        self.items = list(items)


class PDict:
    def __init__(self, items=(), factory=None):
        self.d = dict(items)
        self.factory = factory


class PIter:
    def __init__(self, it):
        self.it = it


class NumV:
    """A symbolic python number. kind: 'int' | 'frac' | 'float'."""

    __slots__ = ("t", "kind", "taint")

    def __init__(self, t, kind, taint=None):
        self.t, self.kind, self.taint = t, kind, taint

    def __repr__(self):
        return f"NumV({T.show(self.t)},{self.kind})"


class StrV:
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return f"StrV{self.parts}"


class BoolV:
    """A predicate literal."""

    __slots__ = ("key", "neg")

    def __init__(self, key, neg=False):
        self.key, self.neg = key, neg

    def __repr__(self):
        return f"{'not ' if self.neg else ''}{self.key}"


class Opaque:
    n = itertools.count()

    def __init__(self, why):
        self.why = why
        self.id = next(Opaque.n)

    def __repr__(self):
        return f"Opaque({self.why})"


class ObjV:
    def __init__(self, cls, f=None):
        self.cls, self.f = cls, dict(f or {})

    def __repr__(self):
        return f"<{self.cls.name} object>"


class FuncV:
    __slots__ = ("func", "closure", "owner", "defaults")

    def __init__(self, func, closure=None, owner=None, defaults=None):
        self.func, self.closure, self.owner, self.defaults = func, closure, owner, defaults

    def __repr__(self):
        return f"<{self.func.short}>"


class Bound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Native:
    """A function of the analyser standing for a builtin or a contract."""

    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<native {self.name}>"


class BuiltinV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<builtin {self.name}>"

    def __eq__(self, o):
        return isinstance(o, BuiltinV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ModV:
    __slots__ = ("name", "ext")

    def __init__(self, name, ext):
        self.name, self.ext = name, ext


class SuperV:
    __slots__ = ("after", "obj")

    def __init__(self, after, obj):
        self.after, self.obj = after, obj


class SubsV:
    """An arbitrary substitution."""

    def __init__(self, sid):
        self.sid = sid


class ExprV:
    """An expression. `classes`: possible kinds. Either a leaf (uid) or a built value (t) or a structured object."""

    __slots__ = ("uid", "t", "classes", "f", "fresh", "fwd", "neqs", "world", "label", "notes")

    def __init__(self, world, classes, uid=None, t=None, fresh=False, label=""):
        self.world, self.classes, self.uid, self.t, self.fresh = world, frozenset(classes), uid, t, fresh
        self.f = {}
        self.fwd = None
        self.neqs = []
        self.label = label
        self.notes = {}

    def rep(self):
        x = self
        while x.fwd is not None:
            x = x.fwd
        return x

    @property
    def exact(self):
        x = self.rep()
        return next(iter(x.classes)) if len(x.classes) == 1 else None

    def __repr__(self):
        x = self.rep()
        c = x.exact
        return f"<{c.name if c else 'Expr'} {T.show(x.term_or_none() or ('opq', '?'))}>"

    def term_or_none(self):
        try:
            return self.term()
        except Undecided:
            return None

    def term(self):
        x = self.rep()
        if x.uid is not None:
            return ("a", x.uid)
        if x.t is not None:
            return x.t
        return x.world.kinds.sem(x)


class Kinds:
    """What each kind of expression denotes."""

    TRIG = {"sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan"}

    def __init__(self):
        m = get_model()
        self.model = m
        self.concrete = [c for c in m.concrete_expr_classes()]
        self.by_name = {c.name: c for c in self.concrete}
        self.expr = m.cls("Expr")
        self.num = m.cls("Num")
        self.fields = {}
        for c in self.concrete:
            names = [f[0] for f in c.dataclass_fields()]
            if self.num in c.mro() and not names:
                for k in c.mro_classes():
                    for n in k.order:
                        if n in ("value",) and n not in names:
                            names.append(n)
            if c.name == "Any_":
                names = []
            self.fields[c] = tuple(n for n in names if not n.startswith("_"))
        drop = {"NaN", "Any_", "Infinity", "NegInfinity"}
        self.universe = frozenset(c for c in self.concrete if c.name not in drop and self.known(c))
        self.nums = frozenset(c for c in self.concrete if self.num in c.mro())
        self.consts = frozenset(c for c in self.nums if not self.fields[c])

    @property
    def arith(self):
        return self.universe & (self.nums | self.set("Sum", "Prod", "Power"))

    def known(self, c):
        return c.name in self.TRIG or c.name in ("Sum", "Prod", "Power", "log", "Abs", "Rat", "Float", "Pi", "E", "Symbol", "Infinity", "NegInfinity", "NaN", "Any_")

    def set(self, *names):
        return frozenset(self.by_name[n] for n in names if n in self.by_name)

    def sub(self, cls):
        """Concrete expression classes below cls."""
        return frozenset(c for c in self.concrete if cls in c.mro())

    def const_term(self, c):
        return {"Pi": T.PI, "E": T.E_, "Infinity": T.INF, "NegInfinity": T.NINF, "NaN": T.NAN}.get(c.name)

    def sem_fields(self, c, get, world):
        """Term denoted by an object of kind c with the given field getter (returns terms / PList)."""
        n = c.name
        if n == "Sum":
            return T.add(*get("terms"))
        if n == "Prod":
            return T.mul(*get("terms"))
        if n == "Power":
            return T.pow_(get("base"), get("exponent"))
        if n == "log":
            b = get("base")
            if b == T.E_:
                return T.fn("ln", get("inner"))
            return ("log", get("inner"), b)
        if n in self.TRIG:
            return T.fn(n, get("inner"))
        if n == "Abs":
            return T.fn("abs", get("inner"))
        if n in ("Rat", "Float"):
            return get("value")
        t = self.const_term(c)
        if t is not None:
            return t
        raise Undecided(f"no meaning known for {n}")

    def sem(self, x):
        c = x.exact
        if c is None:
            raise Undecided("kind unknown")

        def get(name):
            if name not in x.f:
                raise Undecided(f"{c.name}.{name} unset")
            v = x.f[name]
            if name == "terms":
                if not isinstance(v, PList):
                    raise Undecided("terms is not a list")
                return [as_term(i) for i in v.items]
            return as_term(v)

        if c.name == "Symbol":
            if x.uid is None:
                nm = x.f.get("name")
                x.uid = x.world.symbol_for(nm, x)
            return ("a", x.uid)
        return self.sem_fields(c, get, x.world)


def as_term(v):
    if isinstance(v, ExprV):
        return v.term()
    if isinstance(v, NumV):
        return v.t
    if isinstance(v, bool):
        raise Undecided("boolean used as a number")
    if isinstance(v, (int, Fraction)):
        return T.q(v)
    if isinstance(v, float):
        if v != v:
            return T.NAN
        if v in (float("inf"), float("-inf")):
            return T.INF if v > 0 else T.NINF
        import math

        if v == math.pi:
            return T.PI
        if v == math.e:
            return T.E_
        return T.q(Fraction(v))
    raise Undecided(f"not a value: {v!r}")


class World:
    """Everything known on one path."""

    def __init__(self, kinds, choose):
        self.kinds = kinds
        self.choose = choose
        self.wide = ()  # extra numbers to try, see terms.near
        self.uids = itertools.count(1)
        self.leaf = {}  # uid -> ExprV or ('num', kind)
        self.names = {}
        self.facts = []  # (kind, data, truth, loc)
        self.lits = {}
        self.binds = {}  # uid -> term
        self.base_at = {}  # uid -> term giving the value a variable has at the point of evaluation
        self.slopes = {}  # (uid, symuid) -> term
        self.var_uids = []
        self.indep_facts = []  # (term, symuid, truth)
        self.events = []
        self.watch = False  # record stores to existing expressions and to lists that belong to them or to the caller
        self.rounded = []
        self.rounded_cmps = []
        self.symbols_by_name = {}
        self.fresh_syms = set()
        self.fresh_dep = None  # when given: the only (leaf, introduced variable) pairs that depend on each other
        self._indep = None
        self.even_roots = False  # whether (negative)^(even/odd) is judged; otherwise (negative)^(odd/odd)
        self.root_of = None
        self.negative = 0.0  # share of negative values among arbitrary reals

    # ------------------------------------------------------------ creation
    def atom(self, classes=None, label=""):
        uid = next(self.uids)
        x = ExprV(self, self.kinds.universe if classes is None else classes, uid=uid, label=label)
        self.leaf[uid] = x
        if label:
            self.names[uid] = label
        return x

    def number(self, kind, label=""):
        if self.exact and kind == "float":
            raise Done()
        uid = next(self.uids)
        self.leaf[uid] = ("num", kind)
        if label:
            self.names[uid] = label
        return NumV(("a", uid), kind)

    def built(self, t, classes=None, label=""):
        """Result of an operation whose value is known but whose shape is not."""
        if T.isq(t):
            return self.rat(t[1])
        if classes is None and all(u[0] in ("q", "c", "add", "mul", "pow") for u in T.subterms(t)):
            # a number built by arithmetic alone is no function application and no symbol
            classes = self.kinds.arith
        x = ExprV(self, self.kinds.universe if classes is None else classes, t=t, fresh=False, label=label)
        return x

    exact = False  # only whole numbers and fractions go in: none of the numbers built may be rounded

    def inexact(self, what, v=None):
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            return
        f = self.it.stack[-1] if self.it.stack else None
        self.rounded.append((what, f))

    def rat(self, v):
        if self.exact and isinstance(v, NumV) and v.taint:
            self.inexact(f"a rational is made by {v.taint}")
        x = ExprV(self, self.kinds.set("Rat"), label="")
        x.f["value"] = v if not isinstance(v, (int, Fraction)) else Fraction(v)
        return x

    def float_(self, v):
        if self.exact:
            self.inexact("an expression is combined with a float", v)
        x = ExprV(self, self.kinds.set("Float"))
        x.f["value"] = v
        return x

    def symbol(self, label="x"):
        x = self.atom(self.kinds.set("Symbol"), label)
        x.f["name"] = StrV([("name", x.uid)])
        return x

    def symbol_for(self, nm, x):
        key = repr(nm)
        if isinstance(nm, str) or isinstance(nm, StrV):
            if isinstance(nm, StrV) and len(nm.parts) == 1 and isinstance(nm.parts[0], tuple) and nm.parts[0][0] == "name":
                return nm.parts[0][1]
            if key in self.symbols_by_name:
                return self.symbols_by_name[key]
        uid = next(self.uids)
        self.leaf[uid] = x
        self.symbols_by_name[key] = uid
        if isinstance(nm, str):
            self.names[uid] = nm
        return uid

    def var(self, uid):
        if uid not in self.var_uids:
            self.var_uids.append(uid)

    # ------------------------------------------------------------ facts
    def fact(self, kind, data, truth):
        self.facts.append((kind, data, truth))
        if kind == "numeq" and truth:
            for a, b in (data, data[::-1]):
                if a[0] == "a" and a[1] not in self.binds and isinstance(self.leaf.get(a[1]), tuple):
                    k = self.leaf[a[1]][1]
                    if T.isq(b) and (k == "frac" or k == "int" and b[1].denominator == 1) or k == "frac" and b[0] == "a" and b != a and self.leaf.get(b[1]) == ("num", "frac") and b[1] not in self.binds:
                        self.binds[a[1]] = b
                        break

    def assume_contains(self, t, symuid, truth):
        self.indep_facts.append((t, symuid, truth))
        self.var(symuid)
        self._indep = None

    # ------------------------------------------------------------ services for Sample
    def leaf_rep(self, uid):
        x = self.leaf.get(uid)
        if isinstance(x, ExprV):
            r = x.rep()
            if r.uid is not None:
                return r.uid
        return uid

    def leaf_def(self, uid, sample):
        if uid in self.binds:
            return self.binds[uid]
        x = self.leaf.get(uid)
        if not isinstance(x, ExprV):
            return None
        r = x.rep()
        if r.uid != uid:
            if r.uid is None or r.uid in self.binds:
                return self.binds.get(r.uid) if r.uid is not None else r.term()
            uid = r.uid
        c = r.exact
        if c is None:
            if r.f and any(k in r.f for k in ("terms", "base", "exponent", "inner", "value")):
                cands = [k for k in sorted(r.classes, key=lambda c: c.name) if all(n in self.kinds.fields[k] for n in r.f if n in ("terms", "base", "exponent", "inner", "value"))]
                if not cands:
                    raise T.Reject("no kind fits")
                if ("cls", uid) not in sample.pick:
                    sample.pick[("cls", uid)] = sample.rng.choice(cands)
                c = sample.pick[("cls", uid)]
            else:
                return None
        if c.name == "Symbol":
            return self._symbol_alias(r, sample)
        t = self.kinds.const_term(c)
        if t is not None:
            return t
        need = self.kinds.fields[c]
        if not any(n in r.f for n in need):
            return None
        key = ("def", uid, c)
        if key in sample.pick:
            return sample.pick[key]

        def get(n):
            if n not in r.f:
                k = ("fld", uid, n)
                if k not in sample.pick:
                    a = self.atom(label=f"{self.name(uid)}.{n}")
                    sample.pick[k] = ("a", a.uid)
                return sample.pick[k]
            v = r.f[n]
            if n == "terms":
                return [as_term(i) for i in v.items]
            return as_term(v)

        try:
            d = self.kinds.sem_fields(c, get, self)
        except Undecided as ex:
            raise T.Reject(str(ex))
        sample.pick[key] = d
        return d

    def _symbol_alias(self, r, sample):
        """A symbol never compared with a variable may be that variable or another one."""
        if r.uid in self.var_uids:
            return None
        k = ("alias", r.uid)
        if k not in sample.pick:
            opts = [None]
            for v in self.var_uids:
                if v in self.binds or v in self.fresh_syms:
                    continue
                if r.uid in self.fresh_syms:
                    continue
                if not any(s == v and (("a", r.uid) in set(T.subterms(t))) and not tr for t, s, tr in self.indep_facts) and not self.known_distinct(r.uid, v):
                    opts.append(("a", v))
            sample.pick[k] = sample.rng.choice(opts)
        return sample.pick[k]

    def known_distinct(self, a, b):
        for k, d, tr in self.facts:
            if k == "eq" and not tr and set(d) == {("a", a), ("a", b)}:
                return True
        return False

    def leaf_kind(self, uid, sample):
        x = self.leaf.get(uid)
        if x is None:
            return "real"
        if isinstance(x, tuple):
            return {"int": "int", "frac": "rat", "float": "float"}.get(x[1], x[1])
        r = x.rep()
        cs = r.classes
        k = ("kind", uid)
        if k in sample.pick:
            return sample.pick[k]
        if cs <= self.kinds.nums:
            c = sample.rng.choice(sorted(cs, key=lambda c: c.name))
            v = {"Rat": "rat", "Float": "float", "Pi": "pi", "E": "e", "Infinity": "inf", "NegInfinity": "ninf"}.get(c.name, "real")
        elif r.notes.get("const"):
            v = "real"
        else:
            v = "real"
        sample.pick[k] = v
        return v

    def is_symbol_leaf(self, uid, sample):
        x = self.leaf.get(uid)
        return isinstance(x, ExprV) and x.rep().exact is not None and x.rep().exact.name == "Symbol"

    def symbol_uid(self, t, sample):
        if t[0] == "a":
            uid = self.leaf_rep(t[1])
            d = self.leaf_def(uid, sample) if uid not in self.binds else None
            if d is not None and d[0] == "a":
                return self.leaf_rep(d[1])
            return uid
        return None

    def vars(self):
        return [v for v in self.var_uids if v not in self.binds]

    def independent(self, uid, sym, sample):
        if self._indep is None:
            self._indep = {}
            for t, s, truth in self.indep_facts:
                if not truth:
                    todo, seen = [t], set()
                    while todo:
                        for u in T.subterms(todo.pop()):
                            if u[0] == "a" and u[1] not in seen:
                                seen.add(u[1])
                                r = self.leaf_rep(u[1])
                                seen.add(r)
                                if r in self.binds:
                                    todo.append(self.binds[r])
                                y = self.leaf.get(r)
                                if isinstance(y, ExprV):
                                    for v in y.rep().f.values():
                                        for w in v.items if isinstance(v, PList) else [v]:
                                            if isinstance(w, (ExprV, NumV)):
                                                try:
                                                    todo.append(as_term(w))
                                                except Undecided:
                                                    pass
                    self._indep.setdefault(self.leaf_rep(s), set()).update(seen)
        return uid in self._indep.get(sym, ())

    def slope(self, uid, sym):
        return self.slopes.get((uid, sym))

    def name(self, uid):
        return self.names.get(uid) or f"a{uid}"

    # ------------------------------------------------------------ sampling
    def thresholds(self):
        """Constants the branches of this path compare with."""
        out = set()
        for k, d, tr in self.facts:
            if k in ("lt", "le", "numeq", "eq"):
                for t in d:
                    for u in T.subterms(t):
                        if T.isq(u):
                            out.add(u[1])
        return out

    def sample(self, rng, need=()):
        s = T.Sample(self, rng)
        for k, d, tr in self.facts:
            if k == "lt":
                if T.less(s.ev(d[0]), s.ev(d[1])) != tr:
                    return None
            elif k == "le":
                if T.less(s.ev(d[1]), s.ev(d[0])) == tr:
                    return None
            elif k == "numeq":
                if T.close(s.ev(d[0]), s.ev(d[1])) != tr:
                    return None
            elif k == "eq" and tr:
                if not T.close(s.ev(d[0]), s.ev(d[1])):
                    return None
            elif k == "eq" and T.isq(d[1]) and d[0][0] == "a":
                x = self.leaf.get(d[0][1])
                if isinstance(x, ExprV) and x.rep().classes <= self.kinds.set("Rat") and T.close(s.ev(d[0]), d[1][1]):
                    return None
        for t, sym, tr in self.indep_facts:
            if not tr:
                # the variable itself must not occur
                for u in T.subterms(t):
                    if u[0] == "a" and s.world.symbol_uid(u, s) == self.leaf_rep(sym):
                        return None
        return s

    def contradiction(self):
        """A fact about constants that is false."""
        for k, d, tr in self.facts:
            if k in ("lt", "le", "numeq") or k == "eq" and tr:
                a, b = T.ground(d[0]), T.ground(d[1])
                if a is not None and b is not None:
                    v = T.close(a, b) if k in ("numeq", "eq") else T.less(a, b) if k == "lt" else not T.less(b, a)
                    if v != tr:
                        return True
        return False

    def samples(self, seed, n, tries=400):
        if self.contradiction():
            return
        rng = T.rng(seed)
        got = 0
        for _ in range(tries):
            try:
                s = self.sample(rng)
            except T.Reject:
                continue
            except RecursionError:
                raise Undecided("recursive definition of a value")
            if s is not None:
                yield s
                got += 1
                if got >= n:
                    return
