"""Transfer functions: statements and expressions of the analysed package over the abstract domain."""
import ast
import string
import itertools
import math
import operator
from fractions import Fraction
from functools import reduce

from ..astutil import func_of_node
from ..model import Class, Func, get_model
from . import terms as T
from .values import (
    Arr,
    BoolV, Bound, BuiltinV, ExprV, FuncV, Infeasible, Kinds, ModV, Native, NumV, ObjV, Opaque, PDict, PIter, PList, PSet, Raised, StrV, SubsV, SuperV, Undecided, World, as_term,
)

HOSTNUM = (int, float, Fraction)


class _Return(Exception):
    def __init__(self, v, node):
        self.v, self.node = v, node


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Budget(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "func", "module", "cls", "first", "nonlocals", "yields")

    def __init__(self, module, func=None, parent=None, cls=None):
        self.vars = {}
        self.parent, self.func, self.module, self.cls = parent, func, module, cls
        self.first = None
        self.nonlocals = ()
        self.yields = None


MISSING = BuiltinV("<missing>")


class PropV:
    __slots__ = ("kind", "fn")

    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn


PRED_ATTRS = {"expandable", "has", "contains", "is_polynomial"}
_kinds = None


def kinds():
    global _kinds
    if _kinds is None:
        _kinds = Kinds()
    return _kinds


class Interp:
    """One path through an entry; `script` is the list of branch decisions to replay."""

    def __init__(self, script, spec):
        self.script = list(script)
        self.log = []
        self.model = get_model()
        self.kinds = kinds()
        self.world = World(self.kinds, self.choose)
        self.spec = spec
        self.world.it = self
        self.world.negative = getattr(spec, "negative", 0.0)
        self.steps = 0
        self.max_steps = getattr(spec, "max_steps", 120000)
        self.max_depth = getattr(spec, "max_depth", 40)
        self.k_list = getattr(spec, "k_list", (2, 3))
        self.stack = []
        self.globals = {}
        self.classattr = {}
        self.side = []  # side obligations: (rule, construct, loc, expected term, actual value)
        self.contracts = {}
        self.rng = None
        self.origins = {}  # returned value -> the return statement it first came from
        self.symlists = {}
        self.keyobj = {}  # dictionary key -> the abstract value used as a key
        from .contracts import install

        install(self)

    # ------------------------------------------------------------ choices
    def choose(self, n, why=""):
        if n <= 1:
            return 0
        i = len(self.log)
        if i < len(self.script):
            c = self.script[i]
        elif self.rng is not None:
            c = self.rng.randrange(n)
        else:
            c = 0
        if i > 400:
            raise Budget("too many branches on one path")
        self.log.append((c, n))
        return c

    def tick(self, node=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("path too long")

    # ------------------------------------------------------------ booleans
    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, Fraction, str, tuple, dict)):
            return bool(v)
        if isinstance(v, BoolV):
            return self.decide(v)
        if isinstance(v, PList):
            return len(v.items) > 0
        if isinstance(v, PSet):
            return len(v.items) > 0
        if isinstance(v, PDict):
            return len(v.d) > 0
        if isinstance(v, NumV):
            return not self.decide(self.cmp_terms("==", v.t, T.ZERO))
        if isinstance(v, ExprV):
            x = v.rep()
            # Sum/Prod define __len__ (never empty); nothing defines __bool__
            l = next((c.lookup("__bool__") for c in x.classes if c.lookup("__bool__")), None)
            if l:
                raise Undecided("__bool__ of expressions")
            return True
        if isinstance(v, StrV):
            if any(isinstance(p, str) for p in v.parts) or v.parts:
                return True
            return False
        if isinstance(v, Opaque):
            return bool(self.choose(2, "opaque"))
        if isinstance(v, ObjV):
            l = v.cls.lookup("__bool__")
            if l:
                return self.truth(self.call_method(v, "__bool__", [], {}))
            l = v.cls.lookup("__len__")
            if l:
                return self.truth(self.call_method(v, "__len__", [], {}))
            return True
        return True

    def decide(self, b):
        key = b.key
        if key is True or key is False:
            return bool(key) != b.neg
        w = self.world
        if key in w.lits:
            return w.lits[key] != b.neg
        r = bool(self.choose(2, str(key)))
        r = not r  # explore True first
        w.lits[key] = r
        k = key[0]
        if k in ("lt", "le", "numeq"):
            w.fact(k, key[1:], r)
            # cheap consequences
            if k == "numeq" and r:
                w.lits.setdefault(("lt", key[1], key[2]), False)
                w.lits.setdefault(("lt", key[2], key[1]), False)
            if k == "lt" and r:
                w.lits.setdefault(("lt", key[2], key[1]), False)
                w.lits.setdefault(self._numeq_key(key[1], key[2]), False)
        elif k == "contains":
            w.assume_contains(key[1], key[2], r)
        return r != b.neg

    def _numeq_key(self, a, b):
        a, b = sorted((a, b), key=repr)
        return ("numeq", a, b)

    def cmp_terms(self, op, a, b):
        if op in ("!=",):
            r = self.cmp_terms("==", a, b)
            return BoolV(r.key, not r.neg)
        if getattr(self.spec, "commute", False):
            a, b = T.comm(a), T.comm(b)
        if T.isq(a) and T.isq(b):
            x, y = a[1], b[1]
            return BoolV({"==": x == y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
        if a == b:
            return BoolV(op in ("==", "<=", ">="))
        known = {"pi": 3.14159265358979, "e": 2.718281828459045, "inf": float("inf"), "ninf": float("-inf")}
        ka = float(a[1]) if T.isq(a) else known.get(a[1]) if a[0] == "c" else None
        kb = float(b[1]) if T.isq(b) else known.get(b[1]) if b[0] == "c" else None
        if ka is not None and kb is not None:
            return BoolV({"==": ka == kb, "<": ka < kb, "<=": ka <= kb, ">": ka > kb, ">=": ka >= kb}[op])
        ga, gb = T.ground(a), T.ground(b)
        if ga is not None and gb is not None:
            eq = T.close(ga, gb)
            lt = not eq and T.less(ga, gb)
            return BoolV({"==": eq, "<": lt, "<=": lt or eq, ">": not lt and not eq, ">=": not lt}[op])
        if op == "==":
            return BoolV(self._numeq_key(a, b))
        if op == "<":
            return BoolV(("lt", a, b))
        if op == ">":
            return BoolV(("lt", b, a))
        if op == "<=":
            return BoolV(("lt", b, a), True)
        return BoolV(("lt", a, b), True)

    # ------------------------------------------------------------ kinds
    def refine(self, x, classes):
        x = x.rep()
        cs = x.classes & frozenset(classes)
        if x.uid is None and x.t is not None and len(cs) < len(x.classes) and cs & self.kinds.nums and self.rational_term(x.t):
            cs = cs & self.kinds.set("Rat")
        if not cs:
            raise Infeasible()
        if cs != x.classes:
            x.classes = cs
            if len(cs) == 1 and x.uid is None and x.t is not None:
                k = self.kinds.const_term(next(iter(cs)))
                if k is not None and k != x.t:
                    self.world.fact("numeq", (x.t, k), True)
                    self._solve(x.t, k)
        return x

    def isinst_expr(self, x, cls):
        x = x.rep()
        yes = frozenset(c for c in x.classes if cls in c.mro())
        no = x.classes - yes
        if not no:
            return True
        if not yes:
            return False
        if self.choose(2, f"isinstance {cls.name}") == 0:
            self.refine(x, yes)
            return True
        self.refine(x, no)
        return False

    def group(self, x, keyfn, why=""):
        """Splits the possible kinds by keyfn and picks one group."""
        x = x.rep()
        groups = {}
        for c in sorted(x.classes, key=lambda c: c.name):
            groups.setdefault(keyfn(c), set()).add(c)
        keys = list(groups)
        i = self.choose(len(keys), why) if len(keys) > 1 else 0
        if len(keys) > 1:
            self.refine(x, groups[keys[i]])
        return keys[i]

    def instance_of(self, v, c):
        """isinstance(v, c) -> bool (may branch)."""
        if isinstance(c, (tuple, PList)):
            cl = list(c) if isinstance(c, tuple) else c.items
            if isinstance(v, ExprV):
                # decide the union in one go
                x = v.rep()
                classes = [k for k in self._flat(cl) if isinstance(k, Class)]
                yes = frozenset(k for k in x.classes if any(b in k.mro() for b in classes))
                if yes and yes != x.classes:
                    if self.choose(2, "isinstance tuple") == 0:
                        self.refine(x, yes)
                        return True
                    self.refine(x, x.classes - yes)
                    return False
                return bool(yes)
            return any(self.instance_of(v, k) for k in cl)
        if isinstance(c, Class):
            if isinstance(v, ExprV):
                return self.isinst_expr(v, c)
            if isinstance(v, ObjV):
                return c in v.cls.mro()
            if isinstance(v, Opaque):
                return bool(self.choose(2))
            return False
        if isinstance(c, BuiltinV) or isinstance(c, Native):
            n = c.name
            if isinstance(v, Opaque):
                return bool(self.choose(2))
            if n == "Fraction" or n.endswith(".Fraction"):
                return isinstance(v, Fraction) or isinstance(v, NumV) and v.kind == "frac"
            if n == "int":
                return isinstance(v, int) or isinstance(v, NumV) and v.kind == "int"
            if n == "bool":
                return isinstance(v, (bool, BoolV))
            if n == "float":
                return isinstance(v, float) or isinstance(v, NumV) and v.kind == "float"
            if n == "str":
                return isinstance(v, (str, StrV))
            if n == "list":
                return isinstance(v, PList)
            if n == "tuple":
                return isinstance(v, tuple)
            if n == "dict":
                return isinstance(v, (PDict, SubsV))
            if n in ("set", "frozenset"):
                return isinstance(v, PSet)
            if n == "object":
                return True
            if n.split(".")[-1] in ("Iterable", "Sequence", "Collection"):
                if isinstance(v, ExprV):
                    it = frozenset(k for k in v.rep().classes if k.lookup("__iter__"))
                    if it and it != v.rep().classes:
                        if self.choose(2) == 0:
                            self.refine(v, it)
                            return True
                        self.refine(v, v.rep().classes - it)
                        return False
                    return bool(it)
                return isinstance(v, (PList, tuple, PDict, PSet, str))
            if n.split(".")[-1] in ("Number", "Real", "Rational"):
                return isinstance(v, HOSTNUM) or isinstance(v, NumV)
            if n.split(".")[-1] in ("Callable",):
                return isinstance(v, (FuncV, Bound, Native, BuiltinV, Class))
            if n == "type":
                return isinstance(v, Class)
        raise Undecided(f"isinstance against {c!r}")

    def _flat(self, cl):
        for k in cl:
            if isinstance(k, (tuple, PList)):
                yield from self._flat(list(k) if isinstance(k, tuple) else k.items)
            else:
                yield k

    # ------------------------------------------------------------ equality
    def equal(self, a, b):
        """a == b as bool or BoolV."""
        if isinstance(a, ExprV) or isinstance(b, ExprV):
            return self.equal_expr(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return BoolV(("opq", min(id(a), id(b)), max(id(a), id(b))))
        if isinstance(a, NumV) or isinstance(b, NumV):
            if isinstance(a, (NumV,) + HOSTNUM) and isinstance(b, (NumV,) + HOSTNUM):
                self.rounded_cmp(a, b)
                return self.cmp_terms("==", as_term(a), as_term(b))
            return False
        if isinstance(a, StrV) or isinstance(b, StrV):
            return self.equal_str(a, b)
        if isinstance(a, PList) and isinstance(b, PList):
            if len(a.items) != len(b.items):
                return False
            return all(self.truth(self.equal(x, y)) for x, y in zip(a.items, b.items))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.truth(self.equal(x, y)) for x, y in zip(a, b))
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            return self.truth(a) == self.truth(b)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            if a is b:
                return True
            if isinstance(a, ObjV) and a.cls.lookup("__eq__"):
                return self.call_method(a, "__eq__", [b], {})
            if isinstance(a, ObjV) and isinstance(b, ObjV) and a.cls is b.cls and a.cls.is_dataclass:
                return all(self.truth(self.equal(a.f.get(n[0]), b.f.get(n[0]))) for n in a.cls.dataclass_fields())
            return False
        if isinstance(a, (Class, ClassOf)) and isinstance(b, (Class, ClassOf)):
            return self.same_class(a, b)
        if isinstance(a, PDict) and isinstance(b, PDict):
            return set(a.d) == set(b.d) and all(self.truth(self.equal(a.d[k], b.d[k])) for k in a.d)
        try:
            return bool(a == b)
        except Exception:
            raise Undecided("equality")

    def equal_str(self, a, b):
        if isinstance(a, StrV) and isinstance(b, StrV):
            if a.parts == b.parts:
                return True
            if len(a.parts) == 1 and len(b.parts) == 1 and not isinstance(a.parts[0], str) and not isinstance(b.parts[0], str):
                p, r = a.parts[0], b.parts[0]
                if p[0] == r[0] == "repr":
                    return self.equal_expr(p[1], r[1])
                if p[0] == r[0] == "name":
                    x, y = self.world.leaf.get(p[1]), self.world.leaf.get(r[1])
                    if isinstance(x, ExprV) and isinstance(y, ExprV):
                        return self.equal_expr(x, y)
                if p[0] == r[0] == "num":
                    return self.cmp_terms("==", p[1], r[1])
        elif isinstance(a, StrV) or isinstance(b, StrV):
            s, o = (a, b) if isinstance(a, StrV) else (b, a)
            if isinstance(o, str) and len(s.parts) == 1 and not isinstance(s.parts[0], str) and s.parts[0][0] == "num":
                try:
                    return self.cmp_terms("==", s.parts[0][1], T.q(Fraction(o)))
                except ValueError:
                    return False
            if not isinstance(o, str):
                return False
        return BoolV(("streq", repr(a.parts if isinstance(a, StrV) else a), repr(b.parts if isinstance(b, StrV) else b)))

    def num_value(self, x):
        """python-level value of an exact number object"""
        x = x.rep()
        c = x.exact
        if c is None or c not in self.kinds.nums:
            return None
        if c in self.kinds.consts:
            return NumV(self.kinds.const_term(c), "float")
        return self.field(x, "value")

    def equal_expr(self, a, b):
        if not isinstance(a, ExprV):
            a, b = b, a
        a = a.rep()
        if isinstance(b, ExprV):
            b = b.rep()
            if a is b:
                return True
        if isinstance(b, bool) or b is None:
            return False
        if getattr(self.spec, "canonical", False):
            r = self._generic_equal(a, b)
            if r is not None:
                return r
        nums = self.kinds.nums
        if isinstance(b, HOSTNUM) or isinstance(b, NumV):
            if not (a.classes & nums):
                return False
            tb = as_term(b)
            if a.classes <= nums and a.exact:
                return self.cmp_terms("==", as_term(self.num_value(a)), tb)
            key = ("isnum", id(a), tb)
            return self._eq_const(a, b, tb)
        if not isinstance(b, ExprV):
            if isinstance(b, Opaque):
                return BoolV(("opq", id(a), id(b)))
            return False
        # two expressions
        an, bn = a.classes & nums, b.classes & nums
        if a.classes <= nums and b.classes <= nums and a.exact and b.exact:
            return self.cmp_terms("==", as_term(self.num_value(a)), as_term(self.num_value(b)))
        if b.exact and b.exact in nums and self._const_of(b) is not None:
            return self._eq_const(a, b, self._const_of(b))
        if a.exact and a.exact in nums and self._const_of(a) is not None:
            return self._eq_const(b, a, self._const_of(a))
        if not (a.classes & b.classes) and not (an and bn):
            return False
        ea, eb = a.exact, b.exact
        if ea and ea is eb and isinstance(a.f.get("name"), str) and isinstance(b.f.get("name"), str):
            return a.f["name"] == b.f["name"]
        if ea and ea is eb and ea not in nums:
            need = self.kinds.fields[ea]
            if ea.name != "Symbol" and all(n in a.f or a.uid is not None for n in need) and (any(n in a.f for n in need) and any(n in b.f for n in need)):
                for n in need:
                    va, vb = self.field(a, n), self.field(b, n)
                    if not self.truth(self.equal(va, vb)):
                        return False
                return True
        ta, tb = a.term_or_none(), b.term_or_none()
        if ta is not None and ta == tb and ta[0] != "a" and a.exact is b.exact and a.exact:
            return True
        key = ("eq",) + tuple(sorted((id(a), id(b))))
        if key in self.world.lits:
            return self.world.lits[key]
        if ta is not None and tb is not None:
            tkey = ("eqt",) + tuple(sorted((ta, tb), key=repr))
            if tkey in self.world.lits:
                return self.world.lits[tkey]
            if ta[0] == "a" and tb[0] == "a":
                rep = self.world.leaf_rep
                pair = {rep(ta[1]), rep(tb[1])}
                for k, d, tr in self.world.facts:
                    if k == "eq" and not tr and d[0][0] == "a" and d[1][0] == "a" and {rep(d[0][1]), rep(d[1][1])} == pair:
                        return False
        else:
            tkey = None
        keep = (a, b)
        self.world.__dict__.setdefault("_keep", []).append(keep)
        if self.choose(2, "structural equality") == 1:
            r = True
            self.unify(a, b)
        else:
            r = False
            if ta is not None and tb is not None:
                self.world.fact("eq", (ta, tb), False)
        self.world.lits[key] = r
        if tkey:
            self.world.lits[tkey] = r
        return r

    def _generic_equal(self, a, b):
        """Equality when the unknowns are in general position and equal values are built in the same form."""
        from .shapes import generic_equal

        try:
            ta = a.term()
            tb = b.term() if isinstance(b, ExprV) else as_term(b)
        except Undecided:
            return None
        if isinstance(b, ExprV) and a.exact and b.exact and a.exact is not b.exact:
            return None
        return generic_equal(self, ta, tb)

    def _const_of(self, x):
        try:
            t = as_term(self.num_value(x))
        except Undecided:
            return None
        if T.isq(t) or t[0] == "c":
            return t
        return None

    def _eq_const(self, a, b, tb):
        """a: expression of unknown kind, tb: constant term."""
        a = a.rep()
        nums = self.kinds.nums
        if not (a.classes & nums):
            return False
        if a.exact and a.exact in nums:
            return self.cmp_terms("==", as_term(self.num_value(a)), tb)
        if any(t == tb for t in a.neqs):
            return False
        ga, gb = T.ground(a.term_or_none()), T.ground(tb)
        if ga is not None and gb is not None and not T.close(ga, gb):
            return False
        if self.choose(2, "equals a constant") == 1:
            want = None
            if tb[0] == "c":
                want = {"pi": "Pi", "e": "E", "inf": "Infinity", "ninf": "NegInfinity"}.get(tb[1])
            elif T.isq(tb):
                want = "Rat" if self.kinds.by_name.get("Rat") in a.classes else "Float"
            cs = self.kinds.set(want) if want else frozenset()
            if not (cs & a.classes):
                raise Infeasible()
            a = self.refine(a, cs)
            if T.isq(tb):
                if want == "Rat":
                    self.bind_value(a, tb[1])
                else:
                    self.bind_value(a, float(tb[1]))
            else:
                self.assert_value(a, tb)
            return True
        a.neqs.append(tb)
        self.world.fact("eq", (a.term_or_none() or ("opq", 0), tb), False)
        return False

    def bind_value(self, a, v):
        t = a.term_or_none()
        if "value" in a.f:
            old = as_term(a.f["value"])
            self.world.fact("numeq", (old, as_term(v)), True)
        else:
            a.f["value"] = v
            if a.uid is None and t is not None:
                self.world.fact("numeq", (t, as_term(v)), True)
                self._solve(t, as_term(v))

    def assert_value(self, a, tb):
        if a.uid is None:
            t = a.term_or_none()
            if t is not None and t != tb:
                self.world.fact("eq", (t, tb), True)
                self._solve(t, tb)

    def _solve(self, t, v):
        """Equation t = v between value numbers: orient it towards a free leaf when that is immediate."""
        w = self.world
        for _ in range(12):
            if t[0] == "a":
                u = w.leaf_rep(t[1])
                x = w.leaf.get(u)
                if u not in w.binds and isinstance(x, ExprV) and not x.rep().f and all(s != t for s in T.subterms(v)) and not (x.rep().exact and x.rep().exact.name == "Symbol"):
                    w.binds[u] = v
                elif u not in w.binds and isinstance(x, tuple) and all(s != t for s in T.subterms(v)):
                    pass
                return
            if t[0] == "mul":
                free = [x for x in t[1:] if not T.isq(x) and x[0] != "c"]
                if len(free) < 1:
                    return
                k = free[-1]
                rest = list(t[1:])
                rest.remove(k)
                v = T.div(v, T.mul(*rest)) if rest else v
                t = k
            elif t[0] == "add":
                free = [x for x in t[1:] if not T.isq(x) and x[0] != "c"]
                if len(free) < 1:
                    return
                k = free[-1]
                rest = list(t[1:])
                rest.remove(k)
                v = T.sub(v, T.add(*rest)) if rest else v
                t = k
            else:
                return

    def unify(self, a, b):
        a, b = a.rep(), b.rep()
        if a is b:
            return
        w = self.world
        nums = self.kinds.nums
        cs = a.classes & b.classes
        if not cs:
            raise Infeasible()

        def plain(x):
            return x.uid is not None and not x.f and x.uid not in w.binds and x.t is None

        def symb(x):
            return x.exact is not None and x.exact.name == "Symbol"

        if symb(a) and symb(b):
            # keep the variable of interest
            if a.uid in w.var_uids or a.uid in w.fresh_syms:
                a, b = b, a
            a.classes = b.classes = cs
            a.fwd = b
            for u, s in list(w.symbols_by_name.items()):
                if s == a.uid:
                    w.symbols_by_name[u] = b.uid
            return
        if plain(a) or plain(b):
            if not plain(a):
                a, b = b, a
            elif plain(b) and b.uid not in w.var_uids and a.uid in w.var_uids:
                a, b = b, a
            b.classes = cs
            b.neqs += a.neqs
            tb = b.term_or_none()
            if tb is not None and any(t == tb for t in b.neqs):
                raise Infeasible()
            a.fwd = b
            if b.uid is None and a.uid is not None:
                w.binds[a.uid] = tb if tb is not None else ("opq", 0)
            return
        a.classes = b.classes = cs
        if a.exact and a.exact not in nums and a.exact.name != "Symbol":
            for n in self.kinds.fields[a.exact]:
                if n in a.f and n in b.f:
                    va, vb = a.f[n], b.f[n]
                    if isinstance(va, PList) and isinstance(vb, PList):
                        if len(va.items) != len(vb.items):
                            raise Infeasible()
                        for p, q in zip(va.items, vb.items):
                            self.unify(p, q)
                    elif isinstance(va, ExprV) and isinstance(vb, ExprV):
                        self.unify(va, vb)
        ta, tb = a.term_or_none(), b.term_or_none()
        if ta is not None and tb is not None and ta != tb:
            w.fact("eq", (ta, tb), True)
            if ta[0] == "a" and not T.isq(tb):
                self._solve(ta, tb)
            elif tb[0] == "a":
                self._solve(tb, ta)
            else:
                self._solve(ta, tb)

    # ------------------------------------------------------------ fields
    def field(self, x, name):
        """Defining field `name` of an expression of (almost) known kind; created on demand."""
        x = x.rep()
        if name in x.f:
            return x.f[name]
        w = self.world
        K = self.kinds
        c = x.exact
        shape = {K.fields[k] for k in x.classes}
        if len(shape) > 1:
            self.group(x, lambda k: K.fields[k], f"shape of {name}")
            c = x.exact
        lab = w.name(x.uid) if x.uid is not None else "e"
        if x.uid is not None and x.uid not in w.binds or x.uid is None and x.t is None:
            v = self.fresh_field(x, name, lab)
            x.f[name] = v
            return v
        # the value is already determined: the last component is solved for
        t = w.binds.get(x.uid) if x.uid is not None else x.t
        if c is None:
            self.group(x, lambda k: k, f"kind for {name}")
            c = x.exact
        self.solve_fields(x, c, t, lab)
        return x.f[name]

    def fresh_field(self, x, name, lab):
        w, K = self.world, self.kinds
        if name == "terms":
            return self.fresh_terms(x, lab)
        if name == "value":
            c = x.exact
            if c is None:
                self.group(x, lambda k: k, "number kind")
                c = x.exact
            n = w.number("frac" if c.name == "Rat" else "float", lab)
            if x.uid is not None:
                w.names[x.uid] = lab
            return n
        if name == "name":
            return StrV([("name", x.uid)])
        return w.atom(label=f"{lab}.{name}")

    def assoc_kinds(self, c, i, k):
        """Possible kinds of the i-th of k terms of a canonical sum/product."""
        K = self.kinds
        acc = K.set("Rat", "Float", "Infinity", "NegInfinity") & K.universe
        base = K.universe - K.set(c.name)
        lead = 0 if c.name == "Prod" else k - 1
        if i != lead:
            base = base - acc
        return base

    def fresh_terms(self, x, lab):
        c = x.exact
        if c is None:
            self.group(x, lambda k: k, "kind for terms")
            c = x.rep().exact
        ks = self.k_list
        self.world.used_k = True
        k = ks[self.choose(len(ks), "number of terms")]
        items = []
        for i in range(k):
            a = self.world.atom(self.assoc_kinds(c, i, k), f"{lab}.t{i}")
            # canonical form: no neutral element
            a.neqs = [T.ONE, T.ZERO] if c.name == "Prod" else [T.ZERO]
            items.append(a)
        return PList(items, origin=x)

    def solve_fields(self, x, c, t, lab):
        w = self.world
        n = c.name
        if n == "Symbol":
            raise Undecided("built value is a bare symbol")
        if n in ("Sum", "Prod"):
            self.world.used_k = True
            k = self.k_list[self.choose(len(self.k_list), "number of terms")]
            items = [w.atom(self.assoc_kinds(c, i, k), f"{lab}.t{i}") for i in range(k)]
            ts = [i.term() for i in items]
            free = 0 if n == "Sum" else k - 1
            others = [u for i, u in enumerate(ts) if i != free]
            w.binds[items[free].uid] = T.sub(t, T.add(*others)) if n == "Sum" else T.div(t, T.mul(*others))
            x.f["terms"] = PList(items, origin=x)
        elif n == "Power":
            if t[0] == "pow":
                b, ex = self.from_term(t[1], f"{lab}.base"), self.from_term(t[2], f"{lab}.exponent")
            else:
                ex = w.atom(label=f"{lab}.exponent")
                b = w.atom(label=f"{lab}.base")
                w.binds[b.uid] = T.pow_(t, T.pow_(ex.term(), T.MINUS))
                w.fact("numeq", (t, T.pow_(b.term(), ex.term())), True)
            x.f["base"], x.f["exponent"] = b, ex
        elif n == "log":
            b = w.atom(label=f"{lab}.base")
            i = w.atom(label=f"{lab}.inner")
            w.binds[i.uid] = T.pow_(b.term(), t)
            x.f["inner"], x.f["base"] = i, b
        elif n in self.kinds.TRIG:
            inv = {"sin": "asin", "cos": "acos", "tan": "atan", "sec": "asec", "csc": "acsc", "cot": "acot", "asin": "sin", "acos": "cos", "atan": "tan"}
            if t[0] == "fn" and t[1] == n:
                x.f["inner"] = self.from_term(t[2], f"{lab}.inner")
            else:
                i = w.atom(label=f"{lab}.inner")
                w.binds[i.uid] = T.fn(inv[n], t)
                w.fact("numeq", (t, T.fn(n, i.term())), True)
                x.f["inner"] = i
        elif n == "Abs":
            i = w.atom(label=f"{lab}.inner")
            w.binds[i.uid] = t
            x.f["inner"] = i
        elif n == "Rat" and self.rational_term(t, True):
            x.f["value"] = self.mknum(t, "frac")
        elif n in ("Rat", "Float"):
            if n == "Float" and self.rational_term(t):
                raise Infeasible()
            v = w.number("frac" if n == "Rat" else "float", lab)
            x.f["value"] = v
            w.fact("numeq", (v.t, t), True)
            self._solve(t, v.t)
        else:
            raise Undecided(f"decomposition of a built {n}")

    def rational_term(self, t, narrow=False):
        """Whether the value is rational because of how it is built (narrow: numbers of unknown kind become rational)."""
        if narrow:
            R = self.kinds.by_name.get("Rat")
            xs = [self.world.leaf.get(self.world.leaf_rep(u[1])) for u in T.subterms(t) if u[0] == "a"]
            if all(isinstance(x, tuple) or x.rep().classes <= self.kinds.nums and R in x.rep().classes for x in xs):
                for x in xs:
                    if not isinstance(x, tuple):
                        self.refine(x, {R})
        k = t[0]
        if k == "q":
            return True
        if k == "a":
            x = self.world.leaf.get(self.world.leaf_rep(t[1]))
            if isinstance(x, tuple):
                return x[1] in ("int", "frac")
            return isinstance(x, ExprV) and x.exact is not None and x.exact.name == "Rat"
        if k in ("add", "mul", "min", "max", "fdiv", "mod"):
            return all(self.rational_term(u) for u in t[1:])
        if k == "pow":
            return self.rational_term(t[1]) and T.isq(t[2]) and t[2][1].denominator == 1
        if k == "fn":
            return t[1] == "abs" and self.rational_term(t[2])
        return k in ("numer", "denom", "floor", "ceil", "trunc", "round", "sign", "bits")

    def from_term(self, t, lab):
        if t[0] == "a":
            x = self.world.leaf.get(t[1])
            if isinstance(x, ExprV):
                return x.rep()
        if T.isq(t):
            return self.world.rat(t[1])
        return self.world.built(t, label=lab)

    # ------------------------------------------------------------ functions
    def func_value(self, f, closure=None, owner=None):
        """The value bound by a def statement, decorators applied."""
        base = FuncV(f, closure, owner)
        if isinstance(f.node, ast.Lambda):
            return base
        v = base
        for d in reversed(f.node.decorator_list):
            nm = d.func if isinstance(d, ast.Call) else d
            nm = nm.attr if isinstance(nm, ast.Attribute) else getattr(nm, "id", "?")
            if nm in ("abstractmethod", "dataclass", "wraps", "lru_cache", "cache", "cached", "no_type_check", "final", "override"):
                continue
            if nm in ("property", "cached_property", "abstractproperty", "classmethod", "staticmethod"):
                v = PropV("property" if "property" in nm else nm, v)
                continue
            env = closure if closure is not None else Env(f.module)
            dv = self.eval(d, env)
            if isinstance(dv, BuiltinV) and dv.name in ("property", "classmethod", "staticmethod"):
                v = PropV(dv.name, v)
                continue
            v = self.call(dv, [v], {}, d)
        return v

    def member(self, owner, name):
        """Value of a class-body member (descriptor not bound)."""
        key = (owner, name)
        if key in self.classattr:
            return self.classattr[key]
        m = owner.members[name]
        if m[0] == "func":
            v = self.func_value(m[1], None, owner)
        elif m[0] == "assign":
            env = Env(owner.module, cls=owner)
            env.vars["__class_body__"] = owner
            v = self.eval(m[1], env)
        elif m[0] == "class":
            v = m[1]
        else:
            raise Undecided(f"member {name}")
        self.classattr[key] = v
        return v

    def bind(self, v, obj, cls):
        """Descriptor protocol."""
        if isinstance(v, PropV):
            if v.kind == "property":
                if obj is None:
                    return v
                return self.call(v.fn, [obj], {}, None)
            if v.kind == "classmethod":
                return Bound(v.fn, cls)
            if v.kind == "staticmethod":
                return v.fn
        if isinstance(v, ObjV) and v.cls.lookup("__get__"):
            return self.call_method(v, "__get__", [obj, cls], {})
        if isinstance(v, (FuncV, Native)) and obj is not None and not (isinstance(v, Native) and v.name == "static"):
            return Bound(v, obj)
        return v

    def setattr(self, o, name, v, node=None, env=None):
        if isinstance(o, ExprV):
            x = o.rep()
            if not x.fresh and any(name in self.kinds.fields[c] for c in x.classes):
                if not (name in x.f and self.same_object(x.f[name], v)):
                    self.mutated(f"field {name} is set", x, node, env)
                    if x.uid is None and x.t is not None:
                        raise Undecided("field of a built value overwritten")
            x.f[name] = v
            return
        if isinstance(o, ObjV):
            l = o.cls.lookup(name)
            if l and l[1][0] == "func" and "setter" in l[1][1].dec_names():
                return self.call(FuncV(l[1][1], None, l[0]), [o, v], {}, node)
            o.f[name] = v
            return
        if isinstance(o, Class):
            self.classattr[(o, name)] = v
            o2 = o
            self.classattr.setdefault("dyn", {})[(o2, name)] = v
            return
        if isinstance(o, Opaque):
            return
        raise Undecided(f"attribute assignment on {o!r}")

    def same_object(self, a, b):
        if isinstance(a, ExprV) and isinstance(b, ExprV):
            return a.rep() is b.rep()
        if isinstance(a, PList) and isinstance(b, PList):
            return a is b or len(a.items) == len(b.items) and all(self.same_object(x, y) for x, y in zip(a.items, b.items))
        return a is b or type(a) is type(b) and isinstance(a, (int, float, str, Fraction, bool)) and a == b

    def mutated(self, what, owner, node=None, env=None):
        """An existing expression (owner: ExprV) or a list of the caller (owner: text) is changed."""
        f = env.func if env is not None and isinstance(env.func, Func) else self.stack[-1] if self.stack else None
        self.world.events.append((what, "an existing expression" if isinstance(owner, ExprV) else str(owner), f, node))

    def where(self, node, env):
        f = env.func if env is not None else None
        return f"{f.module.rel}:{getattr(node, 'lineno', '?')}" if isinstance(f, Func) else "?"

    def getattr(self, o, name, node=None):
        self.tick()
        if isinstance(o, ExprV):
            return self.getattr_expr(o, name)
        if isinstance(o, ObjV):
            if name in o.f:
                return o.f[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PDict(o.f)
            l = self.class_lookup(o.cls, name)
            if l is not MISSING:
                return self.bind(l, o, o.cls)
            h = getattr(self.spec, "missing_attr", None)
            if h:
                r = h(self, o, name)
                if r is not NotImplemented:
                    return r
            raise Raised("AttributeError", (f"{o.cls.name}.{name}",), f"{name}")
        if isinstance(o, Class):
            dyn = self.classattr.get("dyn", {})
            for k in o.mro_classes():
                if (k, name) in dyn:
                    return dyn[(k, name)]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(o.mro_classes())
            l = self.class_lookup(o, name)
            if l is not MISSING:
                return self.bind(l, None, o)
            if name == "__new__":
                return Native("static", lambda it, a, k: self.object_new(a[0]))
            raise Raised("AttributeError", (f"type {o.name}.{name}",))
        if isinstance(o, SuperV):
            return self.getattr_super(o, name)
        if isinstance(o, ModV):
            if o.ext:
                return self.external(f"{o.name}.{name}")
            r = self.model.resolve_from(o.name, name)
            return self.from_binding(r, name)
        if isinstance(o, NumV):
            return self.num_attr(o, name)
        if isinstance(o, (int, Fraction, float)) and not isinstance(o, bool):
            if name in ("numerator", "denominator"):
                if isinstance(o, float):
                    raise Raised("AttributeError", ("float",))
                return getattr(Fraction(o) if isinstance(o, int) else o, name)
            f = getattr(o, name, None)
            if callable(f):
                return Native(name, lambda it, a, k, f=f: f(*a))
            return f
        if isinstance(o, Arr) and name in ("size", "shape", "T", "ndim"):
            n = len(o.items)
            m = len(o.items[0].items) if o.nested else None
            if name == "T":
                return Arr([Arr(c) for c in zip(*[r.items for r in o.items])]) if o.nested else o
            if name == "ndim":
                return 2 if o.nested else 1
            return (n if m is None else n * m) if name == "size" else (n,) if m is None else (n, m)
        if isinstance(o, (PList, PDict, PSet, tuple, str, StrV, PIter, SubsV)):
            return Native(name, lambda it, a, k: self.container_method(o, name, a, k))
        if isinstance(o, (FuncV,)):
            if name in ("__name__", "__qualname__"):
                return o.func.name
            return Opaque(f"function attribute {name}")
        if isinstance(o, Opaque):
            return Opaque(f"{o.why}.{name}")
        if isinstance(o, BuiltinV):
            return self.external(f"{o.name}.{name}")
        if isinstance(o, Bound) and name == "__func__":
            return o.fn
        if o is None:
            raise Raised("AttributeError", (f"None.{name}",))
        raise Undecided(f"attribute {name} of {o!r}")

    def class_lookup(self, c, name):
        for k in c.mro_classes():
            m = k.members.get(name)
            if m is not None and m[0] != "ann":
                return self.member(k, name)
        return MISSING

    def num_attr(self, o, name):
        if name in ("numerator", "denominator"):
            if o.kind == "float":
                raise Raised("AttributeError", ("float",))
            if o.kind == "int":
                return o if name == "numerator" else 1
            return NumV(("numer" if name == "numerator" else "denom", o.t), "int")
        if name == "bit_length":
            return Native(name, lambda it, a, k: NumV(("bits", o.t), "int"))
        if name in ("real",):
            return o
        if name == "is_integer":
            return Native(name, lambda it, a, k: self.cmp_terms("==", ("floor", o.t), o.t))
        return Opaque(f"number.{name}")

    def getattr_expr(self, o, name):
        x = o.rep()
        if name in x.f:
            return x.f[name]
        K = self.kinds
        if name == "__class__":
            c = x.exact
            if c is None:
                key = (id(x), "cls")
                return ClassOf(x)
            return c
        if name == "__dict__":
            raise Undecided("__dict__")
        h = self.contracts.get(("attr", name))
        if h is not None and not self.spec_inlines(x, name):
            r = h(self, x)
            if r is not NotImplemented:
                return r

        # defining fields
        def key(c):
            if name in K.fields[c]:
                return ("field", K.fields[c])
            if name == "value" and c in K.consts:
                return ("const", c)
            for k in c.mro_classes():
                m = k.members.get(name)
                if m is not None and m[0] != "ann":
                    if m[0] == "assign" and isinstance(m[1], ast.Constant):
                        return ("const-attr", repr(m[1].value), k, m[1].value)
                    if m[0] == "func" and "classproperty" in m[1].dec_names():
                        return ("cp", c)
                    if m[0] == "assign":
                        return ("assign", c)
                    return ("member", k)
            return ("missing",)

        g = self.group(x, key, f".{name}")
        if g[0] == "field":
            return self.field(x, name)
        if g[0] == "const":
            return NumV(K.const_term(g[1]), "float")
        if g[0] == "missing":
            raise Raised("AttributeError", (f"{sorted(c.name for c in x.classes)[:3]}.{name}",))
        if g[0] == "const-attr":
            return g[3]
        c = x.exact or next(iter(sorted(x.classes, key=lambda c: c.name)))
        if name.endswith("_cache"):
            # remembered results are assumed sound (C02): analysed as not yet filled
            return None
        k = g[1] if g[0] == "member" else next(k for k in c.mro_classes() if name in k.members and k.members[name][0] != "ann")
        return self.bind(self.member(k, name), x, ClassOf(x) if x.exact is None else c)

    def spec_inlines(self, x, name):
        return False

    def getattr_super(self, s, name):
        o = s.obj
        if isinstance(o, Class):
            mro = o.mro_classes()
            i = mro.index(s.after) + 1 if s.after in mro else 0
            for k in mro[i:]:
                m = k.members.get(name)
                if m is not None and m[0] != "ann":
                    v = self.member(k, name)
                    if name == "__new__":
                        return v.fn if isinstance(v, PropV) else v
                    return self.bind(v, None, o)
            if name == "__new__":
                return Native("static", lambda it, a, k: self.object_new(a[0]))
            if name in ("__init_subclass__", "__post_init__", "__init__"):
                return Native("noop", lambda it, a, k: None)
            raise Raised("AttributeError", (name,))
        if isinstance(o, ExprV):
            x = o.rep()

            def key(c):
                mro = c.mro_classes()
                if s.after not in mro:
                    return None
                for k in mro[mro.index(s.after) + 1:]:
                    m = k.members.get(name)
                    if m is not None and m[0] != "ann":
                        return k
                return None

            k = self.group(x, key, "super")
            if k is None:
                if name in ("__post_init__", "__init__"):
                    return Native("noop", lambda it, a, kw: None)
                raise Raised("AttributeError", (f"super().{name}",))
            return self.bind(self.member(k, name), x, x.exact or k)
        if isinstance(o, ObjV):
            mro = o.cls.mro_classes()
            i = mro.index(s.after) + 1 if s.after in mro else 0
            for k in mro[i:]:
                m = k.members.get(name)
                if m is not None and m[0] != "ann":
                    return self.bind(self.member(k, name), o, o.cls)
            if name == "__init__":
                # a dataclass-generated initialiser
                for k in mro[i:]:
                    if k.is_dataclass:
                        return Native("static", lambda it, a, kw, k=k: self.dataclass_init(o, k, a, kw))
            if name in ("__post_init__", "__init__"):
                return Native("noop", lambda it, a, kw: None)
            raise Raised("AttributeError", (f"super().{name}",))
        raise Undecided("super()")

    def object_new(self, c):
        if isinstance(c, ClassOf):
            c = self.exact_class(c.x)
        if self.kinds.expr in c.mro():
            x = ExprV(self.world, frozenset([c]), fresh=True)
            return x
        return ObjV(c)

    def exact_class(self, x):
        x = x.rep()
        if x.exact is None:
            self.group(x, lambda c: c, "class")
        return x.exact

    # ------------------------------------------------------------ construction
    def exported(self, fn):
        m = self.model
        r = m.resolve_from(m.pkg, fn.name)
        return bool(r) and r[0] == "func" and r[1] is fn

    def construct(self, c, args, kw, node=None, inline=False):
        if not self.world.watch:
            return self._construct(c, args, kw, node, inline)
        if not self.stack:
            self.given(list(args) + list(kw.values()))
        o = self._construct(c, args, kw, node, inline)
        if isinstance(o, ExprV):
            for v in o.rep().f.values():
                if isinstance(v, PList) and not isinstance(v.origin, ExprV):
                    v.origin = o.rep()
        return o

    def _construct(self, c, args, kw, node=None, inline=False):
        if isinstance(c, ClassOf):
            x = c.x.rep()
            if x.exact is None:
                shapes = {self.kinds.fields[k] for k in x.classes}
                c = self.exact_class(x)
            else:
                c = x.exact
        self.tick()
        if self.world.exact and c.name == "Float" and args:
            self.world.inexact(f"a Float is made of {args[0]!r}"[:80], args[0])
        h = getattr(self.spec, "construct_hook", None)
        if h is not None:
            r = h(self, c, args, kw)
            if r is not NotImplemented:
                return r
        if not inline:
            h = self.contracts.get(("construct", c.name))
            if h is not None:
                r = h(self, c, args, kw)
                if r is not NotImplemented:
                    return r
        if len(self.stack) > self.max_depth:
            raise Undecided("construction depth")
        new = self.class_lookup(c, "__new__")
        if new is not MISSING:
            o = self.call(new.fn if isinstance(new, PropV) else new, [c] + list(args), kw, node)
        else:
            o = self.object_new(c)
        if self.world.watch and isinstance(o, ExprV) and not o.rep().fresh:
            self.initialised_again(o, c, args, kw, node)
            return o
        isinst = o.rep().fresh and o.rep().exact is not None and c in o.rep().exact.mro() if isinstance(o, ExprV) else isinstance(o, ObjV) and c in o.cls.mro()
        if isinst:
            init = self.class_lookup(c, "__init__")
            own = next((k for k in c.mro_classes() if "__init__" in k.members), None)
            dc = next((k for k in c.mro_classes() if k.is_dataclass and k.dataclass_opts.get("init", True)), None)
            mro = c.mro_classes()
            if own is not None and (dc is None or mro.index(own) <= mro.index(dc)):
                self.call(Bound(init, o), list(args), kw, node)
            elif dc is not None:
                self.dataclass_init(o, dc, args, kw)
            elif any(b.startswith("ext:") and b.split(".")[-1] in ("Exception", "ValueError", "NotImplementedError", "RuntimeError", "Warning", "TypeError") for b in c.mro() if isinstance(b, str)):
                o.f["args"] = tuple(args)
            elif args or kw:
                if new is MISSING:
                    raise Raised("TypeError", (f"{c.name}() takes no arguments",))
        return o

    def initialised_again(self, o, c, args, kw, node):
        """__new__ gave an object that exists already: if it is an instance of the class, its __init__ runs on it."""
        x = o.rep()
        yes = frozenset(k for k in x.classes if c in k.mro())
        init = self.class_lookup(c, "__init__")
        own = next((k for k in c.mro_classes() if "__init__" in k.members), None)
        dc = next((k for k in c.mro_classes() if k.is_dataclass and k.dataclass_opts.get("init", True)), None)
        if not yes or own is None and dc is None:
            return
        if yes != x.classes:
            if self.choose(2) == 1:
                self.refine(x, x.classes - yes)
                return
            self.refine(x, yes)
        mro = c.mro_classes()
        if own is not None and (dc is None or mro.index(own) <= mro.index(dc)):
            self.call(Bound(init, o), list(args), kw, node)
        else:
            self.dataclass_init(o, dc, args, kw)

    def dataclass_init(self, o, k, args, kw):
        fs = k.dataclass_fields()
        if len(args) > len(fs):
            raise Raised("TypeError", (f"{k.name}() arguments",))
        kw = dict(kw)
        for i, (n, ann, default, owner) in enumerate(fs):
            if i < len(args):
                v = args[i]
            elif n in kw:
                v = kw.pop(n)
            elif default is not None:
                if isinstance(default, ast.Call) and getattr(default.func, "id", getattr(default.func, "attr", "")) == "field":
                    d = {x.arg: x.value for x in default.keywords}
                    env = Env(owner.module, cls=owner)
                    if "default_factory" in d:
                        v = self.call(self.eval(d["default_factory"], env), [], {}, None)
                    elif "default" in d:
                        v = self.eval(d["default"], env)
                    else:
                        raise Raised("TypeError", (f"missing {n}",))
                else:
                    v = self.eval(default, Env(owner.module, cls=owner))
            else:
                raise Raised("TypeError", (f"{k.name}() missing {n}",))
            self.setattr(o, n, v)
        if kw:
            raise Raised("TypeError", (f"unexpected {list(kw)}",))
        cls = o.cls if isinstance(o, ObjV) else o.rep().exact
        pi = self.class_lookup(cls, "__post_init__")
        if pi is not MISSING:
            self.call(Bound(pi, o), [], {}, None)

    # ------------------------------------------------------------ calls
    def call_method(self, o, name, args, kw):
        return self.call(self.getattr(o, name), list(args), kw, None)

    def given(self, args):
        """The lists among the arguments of the outermost call belong to the caller."""
        for a in args:
            if isinstance(a, PList) and a.origin is None:
                a.origin = "a list the caller handed in"
                self.given(a.items)

    def call(self, f, args, kw, node=None, env=None):
        self.tick()
        if self.world.watch and not self.stack and isinstance(f, (FuncV, Class, Bound)) and (not isinstance(f, FuncV) or self.exported(f.func)):
            self.given(list(args) + list(kw.values()))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw, node, env)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), dict(kw), node)
        if isinstance(f, Native):
            if f.name == "noop":
                return None
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, (Class, ClassOf)):
            return self.construct(f, list(args), dict(kw), node)
        if isinstance(f, BuiltinV):
            from .builtins_ import call_builtin

            return call_builtin(self, f.name, list(args), dict(kw), node)
        if isinstance(f, PropV):
            return self.call(f.fn, args, kw, node)
        if isinstance(f, ObjV):
            return self.call_method(f, "__call__", args, kw)
        if isinstance(f, Opaque):
            return Opaque(f"result of {f.why}")
        raise Undecided(f"call of {f!r}")

    def call_func(self, f, args, kw, node=None):
        fn = f.func
        key = fn.short
        h = self.contracts.get(("func", key))
        if h is None and fn.cls is None and fn.parent is None:
            h = self.contracts.get(("name", fn.name))
        if h is not None and not self.at_entry(fn):
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        hook = getattr(self.spec, "call_hook", None)
        if hook is not None and not self.at_entry(fn):
            r = hook(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.stack) > self.max_depth:
            raise Undecided(f"call depth at {fn.short}")
        nrec = sum(1 for g in self.stack if g is fn)
        if nrec >= (getattr(self.spec, "max_rec", 4) if fn.parent is None else getattr(self.spec, "max_rec_nested", 16)):
            hyp = getattr(self.spec, "hypothesis", None)
            if hyp is not None:
                r = hyp(self, f, args, kw)
                if r is not NotImplemented:
                    return r
            raise Undecided(f"recursion of {fn.short}")
        env = Env(fn.module, fn, f.closure, f.owner or (f.closure.cls if f.closure is not None else None))
        self.bind_params(f, env, args, kw)
        n = fn.node
        self.stack.append(fn)
        try:
            if isinstance(n, ast.Lambda):
                return self.eval(n.body, env)
            if self.is_generator(fn):
                env.yields = PList()
            try:
                self.exec_block(n.body, env)
            except _Return as r:
                if isinstance(r.v, (ExprV, NumV, PList)):
                    self.origins.setdefault(id(r.v), (r.v, fn, r.node))
                if env.yields is not None:
                    return PIter(iter(env.yields.items))
                return r.v
            if env.yields is not None:
                return PIter(iter(env.yields.items))
            return None
        finally:
            self.stack.pop()

    def at_entry(self, fn):
        return not any(g is fn for g in self.stack) and fn is getattr(self.spec, "entry_func", None)

    _gen = {}

    def is_generator(self, fn):
        if fn not in Interp._gen:
            r = False
            todo = list(fn.node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                todo.extend(ast.iter_child_nodes(n))
            Interp._gen[fn] = r
        return Interp._gen[fn]

    def bind_params(self, f, env, args, kw):
        a = f.func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        denv = f.closure if f.closure is not None else Env(f.func.module, cls=f.owner)
        i = 0
        kw = dict(kw)
        for j, name in enumerate(pos):
            if j < len(args):
                env.vars[name] = args[j]
                if name in kw:
                    raise Raised("TypeError", (f"multiple values for {name}",))
            elif name in kw:
                env.vars[name] = kw.pop(name)
            elif defaults[j] is not None:
                env.vars[name] = self.eval(defaults[j], denv)
            else:
                raise Raised("TypeError", (f"{f.func.short}() missing {name}",))
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(args[len(pos):])
        elif len(args) > len(pos):
            raise Raised("TypeError", (f"{f.func.short}() takes {len(pos)} arguments",))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env.vars[x.arg] = self.eval(d, denv)
            else:
                raise Raised("TypeError", (f"missing {x.arg}",))
        if a.kwarg:
            env.vars[a.kwarg.arg] = PDict(kw)
        elif kw:
            raise Raised("TypeError", (f"{f.func.short}() got unexpected {list(kw)}",))
        if pos and f.owner is not None:
            env.first = pos[0]

    # ------------------------------------------------------------ names
    def load(self, name, env, node=None):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if e.vars.get("__class_body__") is not None and name in e.vars["__class_body__"].members:
                return self.member(e.vars["__class_body__"], name)
            e = e.parent
        if name == "super":
            return BuiltinV("super")
        return self.load_global(env.module, name, env)

    def load_global(self, module, name, env=None):
        key = (module.name, name)
        if key in self.globals:
            return self.globals[key]
        r = self.model.resolve(module, name)
        if r is None:
            # a local of the enclosing function that is not (yet) bound on this path
            raise Raised("NameError", (name,))
        v = self.from_binding(r, name)
        self.globals[key] = v
        return v

    def from_binding(self, r, name):
        if r is None:
            raise Raised("NameError", (name,))
        k = r[0]
        if k == "func":
            key = ("f", r[1])
            if key not in self.globals:
                self.globals[key] = self.func_value(r[1])
            return self.globals[key]
        if k == "class":
            return r[1]
        if k == "module":
            return ModV(r[1], False)
        if k == "ext":
            return self.external(r[1])
        if k == "builtin":
            if name == "NotImplemented" or r[1] == "NotImplemented":
                return NotImplemented
            return BuiltinV(r[1])
        if k == "assign":
            m, expr = r[1], r[2]
            key = ("g", m.name, id(r[3]), name)
            if key not in self.globals:
                if expr is None:
                    raise Undecided(f"module variable {name}")
                self.globals[key] = self.eval(expr, Env(m))
            return self.globals[key]
        if k == "missing":
            raise Raised("ImportError", (r[1],))
        raise Undecided(f"binding {k}")

    def external(self, dotted):
        consts = {"math.pi": NumV(T.PI, "float"), "math.e": NumV(T.E_, "float"), "math.inf": float("inf")}
        if dotted in consts:
            return consts[dotted]
        if dotted.split(".")[0] in ("typing", "typing_extensions"):
            return Opaque(dotted)
        if dotted in ("fractions.Fraction",):
            return BuiltinV("Fraction")
        if dotted.startswith("string.") and isinstance(getattr(string, dotted[7:], None), str):
            return getattr(string, dotted[7:])
        return BuiltinV(dotted) if "." in dotted else ModV(dotted, True)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.tick(st)
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(st).__name__}")
        m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Return(self, st, env):
        raise _Return(self.eval(st.value, env) if st.value is not None else None, st)

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env, st)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env, st)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr, t)
        else:
            o = self.eval(t.value, env)
            k = self.eval_slice(t.slice, env)
            cur = self.getitem(o, k)
        v = self.eval(st.value, env)
        if isinstance(cur, PList) and not isinstance(cur, Arr) and isinstance(st.op, ast.Add):
            items = list(self.iterate(v))
            if cur.origin is not None:
                self.mutated("+= on a list", cur.origin, st, env)
            cur.items.extend(items)
            r = cur
        else:
            r = self.binop(type(st.op), cur, v, st)
        if isinstance(t, ast.Name):
            self.assign(t, r, env, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, r, st, env)
        else:
            self.setitem(o, k, r, st, env)

    def assign(self, t, v, env, st=None):
        if isinstance(t, ast.Name):
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        return
                    e = e.parent
                self.globals[(env.module.name, t.id)] = v
                return
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                n = len(items) - (len(t.elts) - 1)
                if n < 0:
                    raise Raised("ValueError", ("unpack",))
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, env, st)
                self.assign(t.elts[i].value, PList(items[i:i + n]), env, st)
                for x, y in zip(t.elts[i + 1:], items[i + n:]):
                    self.assign(x, y, env, st)
            else:
                if len(items) != len(t.elts):
                    raise Raised("ValueError", ("unpack",))
                for x, y in zip(t.elts, items):
                    self.assign(x, y, env, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v, st, env)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_slice(t.slice, env), v, st, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, st)
        else:
            raise Undecided("assignment target")

    def x_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        n = 0
        for v in self.iterate(it):
            n += 1
            if n > 200:
                raise Undecided("long loop")
            self.assign(st.target, v, env, st)
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, env)

    def x_While(self, st, env):
        n = 0
        while True:
            before = len(self.log)
            v = self.eval(st.test, env)
            if isinstance(v, (BoolV, Opaque)) and (not isinstance(v, BoolV) or v.key not in (True, False)) and self.numeric_loop(st):
                # unbounded numeric search: forget the variables it assigns, keep the negated condition
                for x in self.loop_targets(st):
                    old = env.vars.get(x)
                    if isinstance(old, (NumV,) + HOSTNUM):
                        env.vars[x] = self.world.number("int" if isinstance(old, int) or isinstance(old, NumV) and old.kind == "int" else "frac", x)
                    elif x in env.vars:
                        env.vars[x] = Opaque("loop variable")
                if self.truth(self.eval(st.test, env)):
                    raise Infeasible()
                break
            if not self.truth(v):
                break
            n += 1
            if n > 400:
                raise Undecided("unbounded loop")
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, env)

    def numeric_loop(self, st):
        for n in ast.walk(st):
            if isinstance(n, (ast.Call, ast.Return, ast.Break, ast.Raise)):
                return False
        return True

    def loop_targets(self, st):
        out = []
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
        return out

    def x_Break(self, st, env):
        raise _Break()

    def x_Continue(self, st, env):
        raise _Continue()

    def x_Raise(self, st, env):
        if st.exc is None:
            raise Raised(env.vars.get("__exc__", "Exception"))
        e = st.exc
        name = None
        args = ()
        c = e.func if isinstance(e, ast.Call) else e
        name = c.attr if isinstance(c, ast.Attribute) else getattr(c, "id", "Exception")
        raise Raised(name, args, self.where(st, env))

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise Raised("AssertionError", (), self.where(st, env))

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except Raised as r:
                for h in st.handlers:
                    if self.matches(r.exc, h.type, env):
                        if h.name:
                            env.vars[h.name] = Opaque("exception")
                        old = env.vars.get("__exc__")
                        env.vars["__exc__"] = r.exc
                        self.exec_block(h.body, env)
                        env.vars["__exc__"] = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            import sys

            et = sys.exc_info()[0]
            if et is None or et in (_Return, _Break, _Continue, Raised):
                self.exec_block(st.finalbody, env)

    def matches(self, exc, typ, env):
        if typ is None:
            return True
        if isinstance(typ, ast.Tuple):
            return any(self.matches(exc, t, env) for t in typ.elts)
        import builtins

        n = typ.attr if isinstance(typ, ast.Attribute) else getattr(typ, "id", None)
        a, b = getattr(builtins, exc, None), getattr(builtins, n or "", None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if n == exc:
            return True
        for c in self.model.classes:
            if c.name == exc:
                return any((k.name if isinstance(k, Class) else k.split(":")[-1].split(".")[-1]) == n for k in c.mro()) or n in ("Exception", "BaseException")
        return n in ("Exception", "BaseException")

    def x_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, st)
        self.exec_block(st.body, env)

    def x_FunctionDef(self, st, env):
        f = func_of_node(st)
        v = self.func_value(f, env)
        env.vars[st.name] = v

    def x_ClassDef(self, st, env):
        raise Undecided("local class")

    def x_Import(self, st, env):
        for a in st.names:
            n = a.asname or a.name.split(".")[0]
            d = a.name if a.asname else a.name.split(".")[0]
            env.vars[n] = ModV(d, d.split(".")[0] != self.model.pkg)

    def x_ImportFrom(self, st, env):
        src = self.model.rel_module(env.module, st.level, st.module)
        for a in st.names:
            r = self.model.resolve_from(src, a.name)
            env.vars[a.asname or a.name] = self.from_binding(r, a.name)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_slice(t.slice, env)
                if isinstance(o, PDict):
                    o.d.pop(self.dkey(k), None)
                elif isinstance(o, PList) and isinstance(k, (int, slice)):
                    if o.origin is not None:
                        self.mutated("del on a list", o.origin, st, env)
                    del o.items[k]
                else:
                    raise Undecided("del")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, ObjV):
                    o.f.pop(t.attr, None)

    def x_Global(self, st, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(st.names)

    x_Nonlocal = x_Global

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        self.tick(n)
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(n).__name__}")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.load(n.id, env, n)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr, n)

    def e_Tuple(self, n, env):
        return tuple(self.eval_elts(n.elts, env))

    def e_List(self, n, env):
        return PList(self.eval_elts(n.elts, env))

    def e_Set(self, n, env):
        return PSet(self.eval_elts(n.elts, env))

    def eval_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, n, env):
        d = PDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, env)
                if not isinstance(o, PDict):
                    raise Undecided("dict unpacking")
                d.d.update(o.d)
            else:
                d.d[self.dkey(self.eval(k, env))] = self.eval(v, env)
        return d

    def dkey(self, k):
        r = self.dkey_(k)
        if r is not k:
            self.keyobj.setdefault(r, k)
        return r

    def dkey_(self, k):
        if isinstance(k, (str, int, Fraction, float, bool, type(None), Class)):
            return k
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        if isinstance(k, StrV):
            return ("strv",) + tuple(("repr", id(p[1].rep())) if not isinstance(p, str) and p[0] == "repr" else p for p in k.parts)
        if isinstance(k, ClassOf):
            return self.exact_class(k.x)
        if isinstance(k, NumV):
            return ("numv", k.t)
        if isinstance(k, ExprV):
            c = k.rep().exact
            if c is not None and c.name == "Rat" and isinstance(k.rep().f.get("value"), (int, Fraction)):
                return k.rep().f["value"]
            return ("exprv", id(k.rep()))
        if isinstance(k, BuiltinV):
            return k
        raise Undecided(f"dictionary key {k!r}")

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(type(n.op), a, b, n)

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, BoolV) and v.key not in (True, False):
                return BoolV(v.key, not v.neg)
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return self.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(v, int):
            return ~v
        raise Undecided("unary operator")

    def neg(self, v):
        if isinstance(v, bool):
            return -int(v)
        if isinstance(v, HOSTNUM):
            return -v
        if isinstance(v, NumV):
            return NumV(T.neg(v.t), v.kind, v.taint)
        if isinstance(v, ExprV):
            h = getattr(self.spec, "neg_hook", None)
            if h is not None:
                r = h(self, v)
                if r is not NotImplemented:
                    return r
            return self.op_neg(v)
        if isinstance(v, Opaque):
            return Opaque("-")
        raise Raised("TypeError", ("neg",))

    def e_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.eval(x, env)
            t = self.truth(v)
            if isinstance(v, (BoolV, Opaque)):
                v = t
            if isinstance(n.op, ast.And) and not t:
                return v
            if isinstance(n.op, ast.Or) and t:
                return v
        return v

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env, n)
        return v

    def e_Lambda(self, n, env):
        f = func_of_node(n)
        if f is None:  # in a class or module body
            if n not in self._lambdas:
                self._lambdas[n] = Func("<lambda>", n, env.module, parent=env.func)
            f = self._lambdas[n]
        return FuncV(f, env, env.cls if env.vars.get("__class_body__") else None)

    _lambdas = {}

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                    if isinstance(x, (str, int, float)) and isinstance(spec, str):
                        parts.append(format(x, spec))
                        continue
                s = self.to_str(x, repr_=v.conversion == 114)
                parts.extend([s] if isinstance(s, str) else s.parts)
        return self.mkstr(parts)

    def mkstr(self, parts):
        s = StrV(parts)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        return s

    def to_str(self, v, repr_=False):
        if isinstance(v, str):
            return repr(v) if repr_ else v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, (int, float, Fraction)):
            return (repr if repr_ else str)(v) if not isinstance(v, Fraction) else str(v)
        if isinstance(v, StrV):
            return v
        if isinstance(v, NumV):
            return StrV([("num", v.t, v.kind)])
        if isinstance(v, ExprV):
            h = getattr(self.spec, "repr_hook", None)
            if h is not None:
                return h(self, v)
            return StrV([("repr", v.rep())])
        if isinstance(v, Class):
            return f"<class {v.name}>"
        return StrV([("opq", id(v))])

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, env)
            res = self.compare(type(op), left, right, n)
            if len(n.ops) > 1:
                if not self.truth(res):
                    return False
                res = True
            left = right
        return res

    def compare(self, op, a, b, n=None):
        if op is ast.Eq:
            return self.equal(a, b)
        if op is ast.NotEq:
            r = self.equal(a, b)
            if isinstance(r, BoolV):
                return BoolV(r.key, not r.neg)
            return not r
        if op in (ast.Is, ast.IsNot):
            r = self.identical(a, b)
            return r if op is ast.Is else not r
        if op in (ast.In, ast.NotIn):
            r = self.contains_item(b, a)
            return r if op is ast.In else not self.truth(r)
        o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[op]
        return self.order(o, a, b)

    def identical(self, a, b):
        if isinstance(a, BoolV) and isinstance(b, bool) or isinstance(b, BoolV) and isinstance(a, bool):
            return self.truth(a) == self.truth(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return bool(self.choose(2))
        if isinstance(a, ExprV) and isinstance(b, ExprV):
            return a.rep() is b.rep()
        if isinstance(a, (ClassOf, Class)) and isinstance(b, (ClassOf, Class)):
            return self.same_class(a, b)
        if type(a) is not type(b):
            return False
        if isinstance(a, (bool, int, str, type(None))):
            return a == b
        return a is b

    def same_class(self, a, b):
        if isinstance(a, Class) and isinstance(b, Class):
            return a is b
        if isinstance(a, Class):
            a, b = b, a
        if isinstance(b, Class):
            x = a.x.rep()
            if b not in x.classes:
                return False
            if x.exact is b:
                return True
            if self.choose(2) == 0:
                self.refine(x, {b})
                return True
            self.refine(x, x.classes - {b})
            return False
        x, y = a.x.rep(), b.x.rep()
        if x is y:
            return True
        if not (x.classes & y.classes):
            return False
        return self.exact_class(x) is self.exact_class(y)

    def contains_item(self, c, v):
        if isinstance(c, (PList, tuple, PSet)):
            for x in c.items if not isinstance(c, tuple) else c:
                if isinstance(x, (Class, ClassOf)) and isinstance(v, (Class, ClassOf)):
                    if self.same_class(x, v):
                        return True
                    continue
                if self.truth(self.equal(x, v)):
                    return True
            return False
        if isinstance(c, PDict):
            if isinstance(v, StrV) and len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] == "num":
                for k in c.d:
                    if isinstance(k, str) and self.truth(self.equal(v, k)):
                        return True
                return False
            return self.dkey(v) in c.d
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        if isinstance(c, (str, StrV)):
            return BoolV(("strin", repr(c), repr(v)))
        if isinstance(c, SubsV):
            return BoolV(("insubs", c.sid, repr(v)))
        if isinstance(c, PIter):
            return self.contains_item(PList(list(c.it)), v)
        if isinstance(c, Opaque):
            return Opaque("in")
        raise Undecided(f"membership in {c!r}")

    def rounded_cmp(self, a, b):
        for v in (a, b):
            if isinstance(v, NumV) and v.taint:
                self.world.rounded_cmps.append((v.taint, self.stack[-1] if self.stack else None))

    def order(self, op, a, b):
        if isinstance(a, ExprV) or isinstance(b, ExprV):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque(op)
            vals = []
            for v in (a, b):
                if isinstance(v, ExprV):
                    x = v.rep()
                    if not (x.classes & self.kinds.nums):
                        if v is a and isinstance(b, ExprV) or v is b:
                            # Num.__lt__ answers False for other kinds; other kinds do not define an order
                            if v is b and isinstance(a, ExprV) and a.rep().classes <= self.kinds.nums:
                                return False
                        raise Raised("TypeError", ("order of expressions",))
                    if not (x.classes <= self.kinds.nums):
                        if self.choose(2, "ordered") == 0:
                            self.refine(x, self.kinds.nums)
                        else:
                            self.refine(x, x.classes - self.kinds.nums)
                            if v is b and isinstance(a, ExprV) and a.rep().classes <= self.kinds.nums:
                                return False
                            raise Raised("TypeError", ("order of expressions",))
                    if x.exact is None and x.classes & self.kinds.consts:
                        # the sign etc. of constants is known only for a definite kind
                        self.group(x, lambda c: c if c in self.kinds.consts else "free", "number kind")
                    vals.append(x.term() if x.exact is None or x.uid is not None else as_term(self.num_value(x)))
                else:
                    vals.append(as_term(v))
            vals = [self.num_term(v, t) for v, t in zip((a, b), vals)]
            return self.cmp_terms(op, *vals)
        if isinstance(a, (NumV,) + HOSTNUM) and isinstance(b, (NumV,) + HOSTNUM):
            self.rounded_cmp(a, b)
            return self.cmp_terms(op, as_term(a), as_term(b))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque(op)
        if (isinstance(a, StrV) and isinstance(b, (str, StrV))) or (isinstance(b, StrV) and isinstance(a, str)):
            r = self.order_str(a, b)
            return {"<": r < 0, "<=": r <= 0, ">": r > 0, ">=": r >= 0}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            return Opaque("order of sequences")
        raise Raised("TypeError", ("order",))

    def order_str(self, a, b):
        """-1, 0 or 1; the order of unknown texts is left open but is an order."""
        ra, rb = (repr(v.parts) if isinstance(v, StrV) else repr(v) for v in (a, b))
        if ra == rb or self.truth(self.equal_str(a, b)):
            return 0

        def below(x, y):
            seen, todo = set(), [x]
            while todo:
                z = todo.pop()
                if z == y:
                    return True
                if z in seen:
                    continue
                seen.add(z)
                for k, v in self.world.lits.items():
                    if isinstance(k, tuple) and k[0] == "strlt":
                        lo, hi = (k[1], k[2]) if v else (k[2], k[1])
                        if lo == z:
                            todo.append(hi)
            return False

        if below(ra, rb):
            return -1
        if below(rb, ra):
            return 1
        lo, hi = sorted((ra, rb))
        less = self.truth(BoolV(("strlt", lo, hi)))
        return (-1 if less else 1) * (1 if lo == ra else -1)

    def num_term(self, v, t):
        if isinstance(v, ExprV):
            x = v.rep()
            if x.exact is not None:
                nv = self.num_value(x)
                return as_term(nv)
        return t

    # ------------------------------------------------------------ arithmetic
    OPS = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"), ast.Div: ("__truediv__", "__rtruediv__"),
           ast.Pow: ("__pow__", "__rpow__"), ast.FloorDiv: ("__floordiv__", "__rfloordiv__"), ast.Mod: ("__mod__", "__rmod__")}

    def binop(self, op, a, b, node=None):
        if isinstance(a, BoolV):
            a = self.truth(a)
        if isinstance(b, BoolV):
            b = self.truth(b)
        if isinstance(a, HOSTNUM) and isinstance(b, HOSTNUM):
            return self.host_op(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.array_op(op, a, b, node)
        if isinstance(a, ExprV) or isinstance(b, ExprV):
            return self.op_expr(op, a, b, node)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("arith")
        if isinstance(a, (NumV,) + HOSTNUM) and isinstance(b, (NumV,) + HOSTNUM):
            return self.num_op(op, a, b, node)
        if op is ast.Add:
            if isinstance(a, PList) and isinstance(b, PList):
                return PList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
                pa = a.parts if isinstance(a, StrV) else [a]
                pb = b.parts if isinstance(b, StrV) else [b]
                return self.mkstr(list(pa) + list(pb))
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PList) and isinstance(y, int):
                    return PList(x.items * y)
                if isinstance(x, tuple) and isinstance(y, int):
                    return x * y
                if isinstance(x, str) and isinstance(y, int):
                    return x * y
                if isinstance(x, PList) and isinstance(y, NumV):
                    raise Undecided("list of symbolic length")
        if op is ast.Mod and isinstance(a, (str, StrV)):
            return Opaque("formatted text")
        if isinstance(a, PSet) and isinstance(b, PSet):
            if op is ast.BitOr:
                return PSet(a.items + [x for x in b.items if not self.truth(self.contains_item(a, x))])
            if op is ast.BitAnd:
                return PSet([x for x in a.items if self.truth(self.contains_item(b, x))])
            if op is ast.Sub:
                return PSet([x for x in a.items if not self.truth(self.contains_item(b, x))])
        if isinstance(a, PDict) and isinstance(b, PDict) and op is ast.BitOr:
            return PDict({**a.d, **b.d})
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            if op in self.OPS and isinstance(a, ObjV) and a.cls.lookup(self.OPS[op][0]):
                return self.call_method(a, self.OPS[op][0], [b], {})
        raise Raised("TypeError", (f"operator {op.__name__}",))

    def array_op(self, op, a, b, node=None):
        if op is ast.MatMult:
            dot = lambda u, v: reduce(lambda p, q: self.binop(ast.Add, p, q, node), [self.binop(ast.Mult, x, y, node) for x, y in zip(u.items, v.items)])
            if not isinstance(a, Arr) or not isinstance(b, Arr) or not a.items:
                raise Raised("TypeError", ("matmul",))
            if not a.nested and not b.nested:
                return dot(a, b)
            rows = a.items if a.nested else [a]
            cols = [Arr(c) for c in zip(*[r.items for r in b.items])] if b.nested else [b]
            if len(rows[0].items) != len(cols[0].items):
                raise Raised("ValueError", ("shapes",))
            r = [[dot(x, y) for y in cols] for x in rows]
            if not b.nested:
                return Arr([x[0] for x in r])
            return Arr([Arr(x) for x in r]) if a.nested else Arr(r[0])
        if isinstance(a, PList) and isinstance(b, PList):
            if len(a.items) != len(b.items):
                if len(a.items) == 1 or len(b.items) == 1:
                    n = max(len(a.items), len(b.items))
                    a, b = Arr(a.items * n if len(a.items) == 1 else a.items), Arr(b.items * n if len(b.items) == 1 else b.items)
                else:
                    raise Raised("ValueError", ("operands could not be broadcast",))
            return Arr([self.binop(op, x, y, node) for x, y in zip(a.items, b.items)])
        if isinstance(a, Arr):
            return Arr([self.binop(op, x, b, node) for x in a.items])
        return Arr([self.binop(op, a, x, node) for x in b.items])

    def host_op(self, op, a, b):
        f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.Pow: operator.pow, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
             ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitXor: operator.xor}.get(op)
        if f is None:
            raise Undecided("operator")
        try:
            if op is ast.Pow and abs(b) > 2000:
                raise Undecided("huge power")
            if op is ast.Div and isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise ZeroDivisionError
                if self.world.exact:
                    return NumV(T.q(Fraction(a, b)), "float", "true division of integers")
                r = a / b
                if Fraction(a, b) != Fraction(r):
                    return NumV(T.q(Fraction(a, b)), "float", "inexact")
                return r
            r = f(a, b)
            if isinstance(r, complex):
                raise Undecided("complex")
            if self.world.exact and isinstance(r, float) and r == r and abs(r) != float("inf"):
                return NumV(T.q(Fraction(r)), "float", "float arithmetic")
            return r
        except ZeroDivisionError:
            raise Raised("ZeroDivisionError", ())
        except OverflowError:
            raise Raised("OverflowError", ())
        except TypeError:
            raise Raised("TypeError", ())

    def nkind(self, v):
        if isinstance(v, NumV):
            return v.kind
        return "float" if isinstance(v, float) else "frac" if isinstance(v, Fraction) else "int"

    def num_op(self, op, a, b, node=None):
        ka, kb = self.nkind(a), self.nkind(b)
        ta, tb = as_term(a), as_term(b)
        kind = "float" if "float" in (ka, kb) else "frac" if "frac" in (ka, kb) else "int"
        taint = (a.taint if isinstance(a, NumV) else None) or (b.taint if isinstance(b, NumV) else None)
        if op is ast.Add:
            return self.mknum(T.add(ta, tb), kind, taint)
        if op is ast.Sub:
            return self.mknum(T.sub(ta, tb), kind, taint)
        if op is ast.Mult:
            return self.mknum(T.mul(ta, tb), kind, taint)
        if op in (ast.Div, ast.FloorDiv, ast.Mod):
            if T.isq(tb):
                if tb[1] == 0:
                    raise Raised("ZeroDivisionError", ())
            elif self.decide(self.cmp_terms("==", tb, T.ZERO)):
                raise Raised("ZeroDivisionError", ())
        if op is ast.Div:
            if kind == "int":
                kind = "float"
                taint = taint or "true division of integers"
            return self.mknum(T.div(ta, tb), kind, taint)
        if op is ast.FloorDiv:
            return self.mknum(("fdiv", ta, tb), "float" if kind == "float" else "int", taint)
        if op is ast.Mod:
            return self.mknum(("mod", ta, tb), kind, taint)
        if op is ast.Pow:
            if kb == "int":
                k = ka
                if ka == "int" and T.isq(tb) and tb[1] < 0:
                    k, taint = "float", "negative power of an integer"
                return self.mknum(T.pow_(ta, tb), k, taint)
            if kb == "frac" and ka in ("int", "frac"):
                # Fraction ** Fraction stays exact only for whole exponents
                if self.known_int(tb):
                    return self.mknum(T.pow_(ta, tb), "frac", taint)
                return self.mknum(T.pow_(ta, tb), "float", taint or "power with a fractional exponent")
            return self.mknum(T.pow_(ta, tb), "float", taint)
        if op is ast.LShift:
            return self.mknum(T.mul(ta, T.pow_(T.q(2), tb)), kind, taint)
        if op in (ast.BitAnd, ast.BitOr, ast.RShift, ast.BitXor):
            return Opaque("bit operation")
        raise Undecided("numeric operator")

    def known_int(self, t):
        if T.isq(t):
            return t[1].denominator == 1
        w = self.world
        return w.lits.get(self._numeq_key(("denom", t), T.ONE)) is True or t[0] in ("numer", "denom", "floor", "fdiv", "trunc")

    def mknum(self, t, kind, taint=None):
        if T.isq(t) and not taint:
            if kind == "int" and t[1].denominator == 1:
                return int(t[1])
            if kind == "frac":
                return t[1]
            if kind == "float":
                f = float(t[1])
                if Fraction(f) == t[1]:
                    return f
        return NumV(t, kind, taint)

    def castv(self, v):
        """Operand of an expression operator as a value; None when it is not a number/expression."""
        if isinstance(v, ExprV):
            return v
        if isinstance(v, bool) or v is None:
            return None
        if isinstance(v, HOSTNUM):
            if isinstance(v, float):
                return self.world.float_(v)
            return self.world.rat(v)
        if isinstance(v, NumV):
            return self.world.float_(v) if v.kind == "float" else self.world.rat(v)
        return None

    def op_expr(self, op, a, b, node=None):
        """Operators on expressions: contract = the mathematical operation (obligation of C05)."""
        h = getattr(self.spec, "op_hook", None)
        if h is not None:
            r = h(self, op, a, b, node)
            if r is not NotImplemented:
                return r
        x, y = self.castv(a), self.castv(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("expression arithmetic")
        if x is None or y is None:
            raise Raised("TypeError", ("operand",))
        R = self.kinds.by_name.get("Rat")
        ex, ey = x.rep().exact, y.rep().exact
        both_rat = ex is R and ey is R
        if op in (ast.FloorDiv, ast.Mod):
            for v in (x, y):
                if v.rep().exact is not R:
                    if R in v.rep().classes:
                        if self.choose(2, "rational operand") == 1:
                            self.refine(v, v.rep().classes - {R})
                            raise Raised("TypeError", ("operand kinds",))
                        self.refine(v, {R})
                    else:
                        raise Raised("TypeError", ("operand kinds",))
            nv = self.num_op(op, self.num_value(x), self.num_value(y), node) if not (isinstance(self.num_value(x), HOSTNUM) and isinstance(self.num_value(y), HOSTNUM)) else self.host_op(op, self.num_value(x), self.num_value(y))
            return self.world.rat(nv)
        tx, ty = x.term(), y.term()
        if both_rat and op in (ast.Add, ast.Sub, ast.Mult):
            vx, vy = self.num_value(x), self.num_value(y)
            f = self.host_op if isinstance(vx, HOSTNUM) and isinstance(vy, HOSTNUM) else self.num_op
            return self.world.rat(f(op, vx, vy))
        if both_rat and op is ast.Div:
            vx, vy = self.num_value(x), self.num_value(y)
            if isinstance(vy, HOSTNUM) and vy != 0:
                f = self.host_op if isinstance(vx, HOSTNUM) else self.num_op
                return self.world.rat(f(op, vx if isinstance(vx, (Fraction, NumV)) else Fraction(vx), Fraction(vy)))
        if op is ast.Add:
            return self.world.built(T.add(tx, ty))
        if op is ast.Sub:
            return self.world.built(T.sub(tx, ty))
        if op is ast.Mult:
            return self.shape_mul(x, y, T.mul(tx, ty))
        if op is ast.Div:
            return self.world.built(T.div(tx, ty))
        if op is ast.Pow:
            if both_rat:
                vx, vy = self.num_value(x), self.num_value(y)
                if isinstance(vx, Fraction) and isinstance(vy, Fraction) and vy.denominator == 1 and (vx != 0 or vy >= 0):
                    return self.world.rat(vx ** int(vy))
            return self.world.built(T.pow_(tx, ty))
        raise Raised("TypeError", ("operator",))

    def shape_mul(self, x, y, t):
        return self.world.built(t)

    def op_neg(self, v):
        if getattr(self.spec, "structured", False) and isinstance(v, ExprV):
            x = v.rep()
            Pr, R = self.kinds.by_name.get("Prod"), self.kinds.by_name.get("Rat")
            if x.exact is Pr and isinstance(x.f.get("terms"), PList):
                items = list(x.f["terms"].items)
                if items[0].rep().exact is R:
                    c = self.neg(self.num_value(items[0]))
                    items = items[1:] if c == 1 else [self.world.rat(c)] + items[1:]
                elif not items[0].rep().classes & self.kinds.nums:
                    items = [self.world.rat(Fraction(-1))] + items
                else:
                    items = None
                if items:
                    if len(items) == 1:
                        return items[0]
                    y = ExprV(self.world, self.kinds.set("Prod"))
                    y.f["terms"] = PList(items)
                    return y
        x = v.rep()
        R = self.kinds.by_name.get("Rat")
        if x.exact is R:
            val = self.num_value(x)
            return self.world.rat(self.neg(val))
        if x.exact is not None and x.exact.name == "Float":
            return self.world.float_(self.neg(self.num_value(x)))
        c = x.exact
        if c is not None and c.name in ("Infinity", "NegInfinity"):
            return self.construct(self.kinds.by_name["NegInfinity" if c.name == "Infinity" else "Infinity"], [], {})
        return self.world.built(T.neg(x.term()))

    # ------------------------------------------------------------ calls / subscripts / comprehensions
    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and e.first is None:
                e = e.parent
            if e is None:
                raise Undecided("super()")
            return SuperV(e.cls, e.vars[e.first])
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            a = [self.eval(x, env) for x in n.args]
            return SuperV(a[0], a[1])
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, PDict):
                    raise Undecided("**kwargs")
                kw.update(d.d)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw, n, env)

    def eval_slice(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, env)
            return slice(g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, env)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        return self.getitem(o, self.eval_slice(n.slice, env))

    def getitem(self, o, k):
        if isinstance(o, Arr):
            if isinstance(k, tuple) and len(k) == 2 and all(isinstance(i, int) for i in k) and o.nested:
                return self.getitem(self.getitem(o, k[0]), k[1])
            if isinstance(k, slice):
                return Arr(self.getitem(PList(o.items), k).items)
        if isinstance(o, (PList, tuple, str)):
            seq = o.items if isinstance(o, PList) else o
            if isinstance(k, (int, slice)) and not isinstance(k, bool):
                try:
                    r = seq[k]
                except IndexError:
                    raise Raised("IndexError", ())
                except TypeError:
                    raise Undecided("slice bounds")
                return PList(r) if isinstance(k, slice) and isinstance(o, PList) else r
            if isinstance(k, NumV):
                raise Undecided("symbolic index")
            if isinstance(k, bool):
                return seq[int(k)]
            raise Undecided("index")
        if isinstance(o, PDict):
            if isinstance(k, StrV) and len(k.parts) == 1 and not isinstance(k.parts[0], str) and k.parts[0][0] == "num":
                for kk, v in o.d.items():
                    if isinstance(kk, str) and self.truth(self.equal(k, kk)):
                        return v
                raise Raised("KeyError", ())
            kk = self.dkey(k)
            if kk in o.d:
                return o.d[kk]
            if o.factory is not None:
                o.d[kk] = self.call(o.factory, [], {})
                return o.d[kk]
            if isinstance(kk, tuple) and kk and kk[0] in ("strv", "exprv", "numv"):
                raise Undecided("symbolic key")
            raise Raised("KeyError", (kk,))
        if isinstance(o, Opaque):
            return Opaque(f"{o.why}[]")
        if isinstance(o, ObjV):
            return self.call_method(o, "__getitem__", [k], {})
        if isinstance(o, ExprV):
            raise Raised("TypeError", ("subscript of expression",))
        if isinstance(o, StrV):
            if all(isinstance(p, str) or p[0] == "rnd" for p in o.parts) and isinstance(k, (int, slice)) and not isinstance(k, bool):
                chars = [c for p in o.parts for c in (p if isinstance(p, str) else (p,))]
                try:
                    r = chars[k]
                except IndexError:
                    raise Raised("IndexError", ())
                except TypeError:
                    raise Undecided("slice bounds")
                return self.mkstr(r if isinstance(k, slice) else [r])
            return Opaque("part of text")
        raise Undecided(f"subscript of {o!r}")

    def setitem(self, o, k, v, st=None, env=None):
        if isinstance(o, PList):
            if o.origin is not None:
                self.mutated("item assignment to a list", o.origin, st, env)
            if isinstance(k, int) and not isinstance(k, bool):
                try:
                    o.items[k] = v
                except IndexError:
                    raise Raised("IndexError", ())
                return
            if isinstance(k, slice):
                o.items[k] = list(self.iterate(v))
                return
            raise Undecided("index")
        if isinstance(o, PDict):
            o.d[self.dkey(k)] = v
            return
        if isinstance(o, Opaque):
            return
        raise Undecided("item assignment")

    def iterate(self, v):
        if isinstance(v, PList):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
            return
        if isinstance(v, (tuple, str)):
            yield from v
            return
        if isinstance(v, PSet):
            yield from list(v.items)
            return
        if isinstance(v, PDict):
            yield from [self.keyobj.get(k, k) for k in list(v.d)]
            return
        if isinstance(v, PIter):
            yield from v.it
            return
        if isinstance(v, ExprV):
            x = v.rep()
            it = frozenset(c for c in x.classes if c.lookup("__iter__"))
            if not it:
                raise Raised("TypeError", ("not iterable",))
            if it != x.classes:
                if self.choose(2) == 0:
                    self.refine(x, it)
                else:
                    self.refine(x, x.classes - it)
                    raise Raised("TypeError", ("not iterable",))
            c = self.exact_class(x)
            yield from self.iterate(self.field(x, "terms"))
            return
        if isinstance(v, ObjV):
            l = v.cls.lookup("__iter__")
            if l:
                yield from self.iterate(self.call_method(v, "__iter__", [], {}))
                return
        if isinstance(v, range):
            yield from v
            return
        if isinstance(v, Opaque):
            raise Undecided(f"iteration over {v.why}")
        if v is None or isinstance(v, (bool, int, float, Fraction, NumV)):
            raise Raised("TypeError", ("not iterable",))
        raise Undecided(f"iteration over {v!r}")

    def comp(self, n, env, elt):
        e2 = Env(env.module, env.func, env, env.cls)
        e2.first = None

        def rec(i):
            if i == len(n.generators):
                yield elt(e2)
                return
            g = n.generators[i]
            for v in self.iterate(self.eval(g.iter, e2 if i else env)):
                self.assign(g.target, v, e2, n)
                if all(self.truth(self.eval(c, e2)) for c in g.ifs):
                    yield from rec(i + 1)

        return rec(0)

    def e_ListComp(self, n, env):
        return PList(list(self.comp(n, env, lambda e: self.eval(n.elt, e))))

    def e_SetComp(self, n, env):
        out = PSet()
        for v in self.comp(n, env, lambda e: self.eval(n.elt, e)):
            if not self.truth(self.contains_item(out, v)):
                out.items.append(v)
        return out

    def e_GeneratorExp(self, n, env):
        return PIter(self.comp(n, env, lambda e: self.eval(n.elt, e)))

    def e_DictComp(self, n, env):
        d = PDict()
        for k, v in self.comp(n, env, lambda e: (self.eval(n.key, e), self.eval(n.value, e))):
            d.d[self.dkey(k)] = v
        return d

    def e_Starred(self, n, env):
        raise Undecided("starred")

    def e_Yield(self, n, env):
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        e.yields.items.append(self.eval(n.value, env) if n.value else None)
        return None

    def e_YieldFrom(self, n, env):
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        e.yields.items.extend(self.iterate(self.eval(n.value, env)))
        return None

    def e_Slice(self, n, env):
        return self.eval_slice(n, env)

    # ------------------------------------------------------------ container methods
    def container_method(self, o, name, a, k):
        from .builtins_ import container_method

        return container_method(self, o, name, a, k)


class ClassOf:
    """type(x) of an expression whose kind is not yet decided."""

    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x
