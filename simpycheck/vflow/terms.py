"""Value-number terms and their random interpretation."""
import random
from fractions import Fraction

import mpmath
from mpmath import mpf

mpmath.mp.dps = 40
H = mpf(10) ** -12


class Reject(Exception):
    """This assignment lies outside the domain of the term (pole, non-real value, ...)."""


def q(x):
    return ("q", Fraction(x))


ZERO, ONE, MINUS = q(0), q(1), q(-1)
PI, E_, INF, NINF, NAN = ("c", "pi"), ("c", "e"), ("c", "inf"), ("c", "ninf"), ("c", "nan")


def isq(t):
    return t[0] == "q"


def add(*ts):
    out, c = [], Fraction(0)
    for t in ts:
        for u in t[1:] if t[0] == "add" else (t,):
            if isq(u):
                c += u[1]
            else:
                out.append(u)
    if c != 0 or not out:
        out.append(q(c))
    return out[0] if len(out) == 1 else ("add",) + tuple(out)


def mul(*ts):
    if len(ts) > 1 and any(u == PI or u == E_ for t in ts for u in (t[1:] if t[0] == "mul" else (t,))):
        ts = cancel(ts)
    elif len(ts) > 1 and any(u[0] == "pow" and u[2] == MINUS for t in ts for u in (t[1:] if t[0] == "mul" else (t,))):
        ts = cancel(ts)
    out, c = [], Fraction(1)
    for t in ts:
        for u in t[1:] if t[0] == "mul" else (t,):
            if isq(u):
                c *= u[1]
            else:
                out.append(u)
    if c == 0:
        # keep the other factors: they may be undefined or infinite
        return ("mul", ZERO) + tuple(out) if out else ZERO
    if c != 1 or not out:
        out.insert(0, q(c))
    return out[0] if len(out) == 1 else ("mul",) + tuple(out)


def comm(t):
    """Sums and products of numbers in one order."""
    if t[0] in ("add", "mul"):
        return t[:1] + tuple(sorted((comm(u) for u in t[1:]), key=repr))
    return t


def cancel(ts):
    """t * t^-1 -> 1"""
    fs = [u for t in ts for u in (t[1:] if t[0] == "mul" else (t,))]
    for inv in [u for u in fs if u[0] == "pow" and u[2] == MINUS]:
        if inv[1] in fs and inv in fs:
            fs.remove(inv[1])
            fs.remove(inv)
    return fs


def pow_(b, x):
    if isq(x):
        if x[1] == 1:
            return b
        if isq(b) and x[1].denominator == 1 and abs(x[1]) < 200 and (b[1] != 0 or x[1] > 0):
            return q(b[1] ** int(x[1]))
    return ("pow", b, x)


def div(a, b):
    if b[0] == "mul" and all(isq(u) or u in (PI, E_) for u in b[1:]):
        return mul(a, *[pow_(u, MINUS) for u in b[1:]])
    return mul(a, pow_(b, MINUS))


def neg(a):
    return mul(MINUS, a)


def sub(a, b):
    return add(a, neg(b))


def fn(name, a):
    if name == "abs":
        if a[0] == "fn" and a[1] == "abs":
            return a
        if isq(a):
            return q(abs(a[1]))
    return ("fn", name, a)


def subterms(t):
    yield t
    if t[0] in ("q", "c", "a", "opq"):
        return
    if t[0] == "at":
        yield from subterms(t[1])
        for v, x in t[2]:
            yield from subterms(v)
            yield from subterms(x)
        return
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from subterms(x)


def replace_leaf(t, m):
    """m: {leaf term: term}"""
    if t in m:
        return m[t]
    if t[0] in ("q", "c", "a", "opq"):
        return t
    if t[0] == "at":
        return ("at", replace_leaf(t[1], m), tuple((replace_leaf(v, m), replace_leaf(x, m)) for v, x in t[2]))
    args = tuple(replace_leaf(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:])
    if t[0] == "add":
        return add(*args)
    if t[0] == "mul":
        return mul(*args)
    return (t[0],) + args


def show(t, names=None, depth=0):
    if depth > 14:
        return "..."
    k = t[0]
    s = lambda x: show(x, names, depth + 1)
    if k == "q":
        return str(t[1])
    if k == "c":
        return t[1]
    if k == "a":
        return names(t[1]) if names else f"a{t[1]}"
    if k == "opq":
        return f"?{t[1]}"
    if k == "add":
        return "(" + " + ".join(s(x) for x in t[1:]) + ")"
    if k == "mul":
        return "*".join(s(x) for x in t[1:])
    if k == "pow":
        b = s(t[1])
        return f"{b}^({s(t[2])})" if t[1][0] in ("a", "c", "fn", "add") else f"({b})^({s(t[2])})"
    if k == "fn":
        return f"{t[1]}({s(t[2])})"
    if k == "D":
        return f"d({s(t[1])})/d{s(t[2])}"
    if k == "at":
        return f"{s(t[1])}[" + ", ".join(f"{s(v)}:={s(x)}" for v, x in t[2]) + "]"
    return f"{k}(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"


_ground = {}


def ground(t):
    """Numeric value of a term without leaves, else None."""
    if t is None:
        return None
    if t in _ground:
        return _ground[t]
    r = None
    try:
        if all(u[0] in ("q", "add", "mul", "pow", "fn") or u in (PI, E_) for u in subterms(t)):
            r = Sample(None, None).ev(t)
    except (Reject, RecursionError, AttributeError, TypeError):
        r = None
    if len(_ground) < 50000:
        _ground[t] = r
    return r


# ------------------------------------------------------------------ numeric domain: Fraction (exact) or mpf
def _mp(x):
    if isinstance(x, Fraction):
        return mpf(x.numerator) / mpf(x.denominator)
    return x


def _chk(x):
    if isinstance(x, mpmath.mpc):
        raise Reject("complex")
    if isinstance(x, mpf) and (mpmath.isnan(x)):
        raise Reject("nan")
    return x


def n_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return _chk(_mp(a) + _mp(b))


def n_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    return _chk(_mp(a) * _mp(b))


def as_rational(x):
    """Exact rational behind a number that was computed inexactly, when it is obvious."""
    if isinstance(x, Fraction):
        return x
    if mpmath.isinf(x):
        return None
    r = mpmath.nint(x * 5040)
    if abs(x * 5040 - r) < mpf(10) ** -22 * (1 + abs(r)):
        return Fraction(int(r), 5040)
    return None


def n_pow(b, x):
    if isinstance(b, mpf) and mpmath.isinf(b) or isinstance(x, mpf) and mpmath.isinf(x):
        raise Reject("infinite power")
    if b == 0:
        if x > 0:
            return Fraction(0)
        if x == 0:
            return Fraction(1)
        raise Reject("pole")
    if abs(x) > 400:
        raise Reject("size")
    xr = as_rational(x)
    if xr is not None and xr.denominator == 1:
        if isinstance(b, Fraction) and abs(xr) < 64:
            return b ** int(xr)
        return _chk(_mp(b) ** int(xr))
    if b > 0:
        return _chk(mpmath.power(_mp(b), _mp(x)))
    if xr is not None and xr.denominator % 2 == 1:
        r = mpmath.power(-_mp(b), _mp(x))
        return -r if xr.numerator % 2 else r
    raise Reject("complex power")


def n_fn(name, a):
    a = _mp(a)
    if mpmath.isinf(a):
        raise Reject("infinite argument")
    if name in ("sin", "cos", "tan", "atan", "exp"):
        r = getattr(mpmath, name)(a)
        if name == "tan" and abs(r) > mpf(10) ** 9:
            raise Reject("pole")
        return r
    if name in ("sec", "csc", "cot"):
        s, c = mpmath.sin(a), mpmath.cos(a)
        num, den = {"sec": (1, c), "csc": (1, s), "cot": (c, s)}[name]
        if abs(den) < mpf(10) ** -9:
            raise Reject("pole")
        return num / den
    if name in ("asin", "acos"):
        if abs(a) > 1:
            if abs(a) < 1 + mpf(10) ** -20:
                a = mpmath.sign(a)
            else:
                raise Reject("domain")
        return getattr(mpmath, name)(a)
    if name in ("asec", "acsc"):
        if abs(a) < 1:
            raise Reject("domain")
        return (mpmath.acos if name == "asec" else mpmath.asin)(1 / a)
    if name == "acot":
        return mpmath.pi / 2 - mpmath.atan(a)
    if name == "ln":
        if a <= 0:
            raise Reject("domain")
        return mpmath.log(a)
    raise Reject(f"unknown function {name}")


def n_floor(a):
    if isinstance(a, Fraction):
        return Fraction(a.numerator // a.denominator)
    return Fraction(int(mpmath.floor(a)))


def exact(a):
    r = as_rational(a)
    if r is None:
        raise Reject("not rational")
    return r


RAT_POOL = [Fraction(a, b) for b in (1, 2, 3, 4, 5, 6) for a in range(-9, 10)] + [Fraction(k, 12) for k in range(-50, 51)]
RAT_POOL = sorted(set(RAT_POOL), key=lambda f: (f.denominator, abs(f), f))
INT_POOL = [Fraction(x) for x in (0, 1, -1, 2, -2, 3, -3, 4, 5, 6, -4, -5, 7, 8, 9, -6, 10, 12)]
COMMON = [Fraction(x) for x in (0, 1, -1, 2, -2)] + [Fraction(1, 2), Fraction(-1, 2), Fraction(3), Fraction(-3), Fraction(1, 3), Fraction(2, 3), Fraction(-2, 3), Fraction(3, 2), Fraction(-3, 2), Fraction(4), Fraction(-4)]


HALF = Fraction(1, 2)
PRINCIPAL = {"asin": (("sin", "csc"), (-HALF, HALF)), "acos": (("cos", "sec"), (0, 1)), "atan": (("tan", "cot"), (-HALF, HALF))}


def near(consts):
    """Numbers on either side of the unusual constants a branch compares with; empty when the usual numbers reach every side."""
    odd = {c for c in consts if abs(c) > 9 or c.denominator > 12}
    out = set()
    for c in odd:
        out |= {c, c + 1, c - 1, c / 2, c * 2, c * Fraction(3, 4), c * Fraction(3, 2), c + Fraction(1, 2)}
    return sorted(out | {-c for c in out})


class Sample:
    """One random assignment, filled in on demand. `world` supplies leaf information and bindings."""

    def __init__(self, world, rng):
        self.world, self.rng = world, rng
        self.alpha = {}
        self.slopes = {}
        self.memo = {}
        self.pick = {}
        self.depth = 0

    def rand_real(self):
        r = self.rng
        x = r.uniform(0.22, 0.93) if r.random() < 0.5 else r.uniform(1.07, 2.9)
        if self.world.negative and r.random() < self.world.negative:
            x = -x
        return mpf(int(x * 10**9)) / 10**9

    def leaf_base(self, uid, tag=""):
        k = (uid, tag)
        if k in self.alpha:
            return self.alpha[k]
        kind = self.world.leaf_kind(uid, self)
        r = self.rng
        if uid in self.world.base_at:
            self.alpha[k] = v = self.ev(self.world.base_at[uid], ())
            return v
        wide = self.world.wide
        if wide and kind in ("rat", "int", "posrat", "nat", "float", "real") and r.random() < 0.7:
            v = r.choice(wide)
            if kind in ("int", "nat"):
                v = Fraction(int(v))
            if kind in ("posrat", "nat"):
                v = abs(v) or Fraction(1)
            if kind == "real":
                v = _mp(v) * mpf(int(r.uniform(0.5, 1.5) * 10**6)) / 10**6
        elif kind == "rat":
            v = r.choice(COMMON) if r.random() < 0.4 else r.choice(RAT_POOL)
        elif kind == "posrat":
            v = abs(r.choice(RAT_POOL)) or Fraction(1)
        elif kind == "nat":
            v = Fraction(r.choice((0, 0, 1, 1, 2, 3)))
        elif kind == "int":
            v = r.choice(INT_POOL)
        elif kind == "float":
            v = Fraction(r.choice((0.5, -0.5, 1.5, 2.25, -2.25, 0.3, 3.7, 2.0, -1.0, 1.0, 0.0, 7.125)))
        elif kind == "pi":
            v = +mpmath.pi
        elif kind == "e":
            v = +mpmath.e
        elif kind == "inf":
            v = mpf("inf")
        elif kind == "ninf":
            v = mpf("-inf")
        else:
            v = self.rand_real()
        self.alpha[k] = v
        return v

    def const_leaf(self, uid):
        return self.world.leaf_kind(uid, self) in ("rat", "posrat", "int", "nat", "float", "pi", "e", "inf", "ninf")

    def ev(self, t, env=()):
        """env: tuple of ((uid or tag), value) pairs overriding symbols."""
        k = (t, env)
        if k in self.memo:
            v = self.memo[k]
            if isinstance(v, Reject):
                raise v
            return v
        self.depth += 1
        if self.depth > 300:
            self.depth = 0
            raise Reject("depth")
        try:
            v = self._ev(t, env)
            if isinstance(v, mpf) and not mpmath.isinf(v) and abs(v) > mpf(10) ** 25:
                raise Reject("size")
            if isinstance(v, Fraction) and (abs(v.numerator) > 10**60 or v.denominator > 10**60):
                v = _mp(v)
        except Reject as ex:
            self.memo[k] = ex
            raise
        except (ZeroDivisionError, OverflowError, ValueError) as ex:
            ex = Reject(str(ex))
            self.memo[k] = ex
            raise ex
        finally:
            self.depth -= 1
        self.memo[k] = v
        return v

    def _ev(self, t, env):
        k = t[0]
        if k == "q":
            return t[1]
        if k == "c":
            return {"pi": +mpmath.pi, "e": +mpmath.e, "inf": mpf("inf"), "ninf": mpf("-inf"), "nan": mpf("nan")}[t[1]]
        if k == "a":
            return self.leaf(t[1], env)
        if k == "add":
            v = self.ev(t[1], env)
            for x in t[2:]:
                v = n_add(v, self.ev(x, env))
            return v
        if k == "mul":
            vs = [self.ev(x, env) for x in t[1:]]
            v = vs[0]
            for x in vs[1:]:
                v = n_mul(v, x)
            return v
        if k == "pow":
            b, x = self.ev(t[1], env), self.ev(t[2], env)
            if b < 0:
                xr = as_rational(x)
                if xr is not None and xr.denominator != 1 and (xr.numerator % 2 == 0) != self.world.even_roots:
                    raise Reject("root of a negative number")
                if xr is not None and xr.denominator == 1 and self.world.even_roots and t[1] == self.world.root_of:
                    raise Reject("not a root")
            elif self.world.even_roots and t[1] == self.world.root_of:
                raise Reject("not negative")
            return n_pow(b, x)
        if k == "fn":
            if t[1] == "abs":
                return abs(self.ev(t[2], env))
            if t[1] in PRINCIPAL:
                self.principal(t, env)
            return _chk(n_fn(t[1], self.ev(t[2], env)))
        if k == "log":
            a, b = self.ev(t[1], env), self.ev(t[2], env)
            if a <= 0 or b <= 0 or b == 1:
                raise Reject("log domain")
            return mpmath.log(_mp(a)) / mpmath.log(_mp(b))
        if k == "D":
            return self.deriv(t[1], t[2], env)
        if k == "frz":  # a value known not to depend on the variable
            return self.ev(t[1], tuple(p for p in env if p[0] != t[2]))
        if k == "at":
            e2 = dict(env)
            for v, x in t[2]:
                u = self.world.symbol_uid(v, self)
                if u is None:
                    raise Reject("substitution of a non-symbol")
                e2[u] = self.ev(x, env)
            return self.ev(t[1], tuple(sorted(e2.items(), key=lambda p: str(p[0]))))
        if k == "sub":  # opaque substitution: symbols take other values
            e2 = dict(env)
            e2["sigma"] = t[2]
            return self.ev(t[1], tuple(sorted(e2.items(), key=lambda p: str(p[0]))))
        if k == "numer":
            return Fraction(exact(self.ev(t[1], env)).numerator)
        if k == "denom":
            return Fraction(exact(self.ev(t[1], env)).denominator)
        if k == "trunc":
            v = self.ev(t[1], env)
            return Fraction(int(v))
        if k == "floor":
            return n_floor(self.ev(t[1], env))
        if k == "ceil":
            return -n_floor(-self.ev(t[1], env))
        if k == "round":
            v = self.ev(t[1], env)
            return Fraction(round(v)) if isinstance(v, Fraction) else Fraction(int(mpmath.nint(v)))
        if k == "fdiv":
            a, b = self.ev(t[1], env), self.ev(t[2], env)
            if b == 0:
                raise Reject("zero")
            return n_floor(a / b) if isinstance(a, Fraction) and isinstance(b, Fraction) else n_floor(_mp(a) / _mp(b))
        if k == "mod":
            a, b = self.ev(t[1], env), self.ev(t[2], env)
            if b == 0:
                raise Reject("zero")
            if isinstance(a, Fraction) and isinstance(b, Fraction):
                return a - b * n_floor(a / b)
            return _mp(a) - _mp(b) * _mp(n_floor(_mp(a) / _mp(b)))
        if k in ("min", "max"):
            a, b = self.ev(t[1], env), self.ev(t[2], env)
            return a if less(a, b) == (k == "min") else b
        if k == "lt":
            return Fraction(less(self.ev(t[1], env), self.ev(t[2], env)))
        if k == "eqv":
            return Fraction(close(self.ev(t[1], env), self.ev(t[2], env)))
        if k == "not":
            return 1 - self.ev(t[1], env)
        if k == "sign":
            v = self.ev(t[1], env)
            return Fraction(-1 if v < 0 else 1)
        if k == "bits":
            return Fraction(int(abs(exact(self.ev(t[1], env)))).bit_length())
        if k == "opq":
            raise Reject("opaque")
        raise Reject(f"term {k}")

    def principal(self, t, env):
        """An inverse function applied to its own function is judged on the principal branch only."""
        x = self.resolve(t[2], env)
        if x[0] == "fn" and x[1] in PRINCIPAL[t[1]][0]:
            lo, hi = PRINCIPAL[t[1]][1]
            y = self.ev(x[2], env)
            if not _mp(Fraction(lo)) <= _mp(y) / mpmath.pi <= _mp(Fraction(hi)):
                raise Reject("branch")

    def resolve(self, t, env):
        for _ in range(10):
            if t[0] != "a":
                return t
            uid = self.world.leaf_rep(t[1])
            if any(k == uid for k, _ in env):
                return t
            d = self.world.leaf_def(uid, self)
            if d is None:
                return t
            t = d
        return t

    def leaf(self, uid, env):
        w = self.world
        uid = w.leaf_rep(uid)
        for key, v in env:
            if key == uid:
                return v
        d = w.leaf_def(uid, self)
        if d is not None:
            return self.ev(d, env)
        sigma = None
        for key, v in env:
            if key == "sigma":
                sigma = v
        if sigma is not None and not self.const_leaf(uid):
            base = self.leaf_base(uid, ("sigma", sigma))
        else:
            base = self.leaf_base(uid)
        if self.const_leaf(uid) or w.is_symbol_leaf(uid, self):
            return base
        return self.field(uid, base, env)

    def field(self, uid, base, env):
        """Opaque expressions are random smooth functions of the symbols they may contain."""
        v = base
        for s in self.world.vars():
            s = self.world.leaf_rep(s)
            if s == uid:
                continue
            if self.world.fresh_dep is not None and s in self.world.fresh_syms and (uid, s) not in self.world.fresh_dep:
                continue
            if self.world.independent(uid, s, self):
                continue
            cur = self.leaf(s, env)
            b0 = self.leaf(s, tuple(p for p in env if p[0] == "sigma"))
            if cur == b0:
                continue
            d = _mp(cur) - _mp(b0)
            k = (uid, s)
            if k not in self.slopes:
                sol = self.world.slope(uid, s)
                if sol is not None:
                    self.slopes[k] = (_mp(self.ev(sol, ())), mpf(self.rng.uniform(-0.4, 0.4)))
                else:
                    self.slopes[k] = (mpf(self.rng.choice((-1, 1)) * self.rng.uniform(0.3, 0.8)), mpf(self.rng.uniform(-0.4, 0.4)))
            a, c = self.slopes[k]
            v = _mp(v) + a * d + c * d * d
        return v

    def deriv(self, t, v, env):
        u = self.world.symbol_uid(v, self)
        if u is None:
            raise Reject("derivative with respect to a non-symbol")
        base = self.leaf(u, env)
        if self.world.leaf_def(u, self) is not None and all(p[0] != u for p in env):
            pass
        lo, hi = dict(env), dict(env)
        lo[u], hi[u] = _mp(base) - H, _mp(base) + H
        key = lambda d: tuple(sorted(d.items(), key=lambda p: str(p[0])))
        a, b = self.ev(t, key(lo)), self.ev(t, key(hi))
        return (_mp(b) - _mp(a)) / (2 * H)


def less(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a < b
    return _mp(a) < _mp(b)


def close(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    a, b = _mp(a), _mp(b)
    if mpmath.isinf(a) or mpmath.isinf(b):
        return a == b
    return abs(a - b) <= mpf(10) ** -9 * (1 + abs(a) + abs(b))


def rng(seed):
    return random.Random(seed)
