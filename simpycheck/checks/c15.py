"""C15: printed expressions are unambiguous."""
import re
from fractions import Fraction as Q

from ..model import get_model
from ..vflow import engine
from ..vflow import terms as T
from ..vflow.build import Builder
from ..vflow.engine import Claim, Entry
from ..vflow.interp import kinds
from ..vflow.values import Done, ExprV, Raised, StrV, Undecided

FUNCS = {n: n for n in ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan")}
FUNCS.update({"arc" + n[1:]: n for n in ("asin", "acos", "atan")})
FUNCS.update({"abs": "abs", "Abs": "abs", "ln": "ln", "sqrt": "sqrt"})
CONST = {"pi": T.PI, "e": T.E_, "inf": T.INF}


class Unreadable(Exception):
    pass


TOKEN = re.compile(r"\s*(\d+\.?\d*(?:e[+-]?\d+)?|log\[base=|log(?=\d)|[A-Za-z_][A-Za-z_]*|\*\*|.)")


def tokens(it, text):
    """text: str or StrV -> list of str (operators, names) and ("t", term) (a number or an atomic expression)"""
    out = []
    for p in [text] if isinstance(text, str) else text.parts:
        if isinstance(p, str):
            pos = 0
            while pos < len(p):
                if p[pos:].isspace():
                    break
                m = TOKEN.match(p, pos)
                s = m.group(1)
                pos = m.end()
                if s[0].isdigit():
                    out.append(("t", T.q(Q(s) if s.isdigit() else Q(float(s)))))
                else:
                    out.append(s)
            continue
        if p[0] == "num":
            t, kind = p[1], p[2]
            if it.truth(it.cmp_terms("<", t, T.ZERO)):
                out.append("-")
                t = T.neg(t)
            if kind == "frac" and not it.truth(it.cmp_terms("==", ("denom", t), T.ONE)):
                out += [("t", ("numer", t)), "/", ("t", ("denom", t))]
            else:
                out.append(("t", t))
        elif p[0] == "atom":
            out.append(("t", p[1].term()))
        else:
            raise Undecided(f"printed {p[0]}")
    return out


class Reader:
    """The usual reading: + - below * / below prefix - below ^ (to the right)."""

    def __init__(self, toks, names):
        self.t, self.i, self.names, self.bar = toks, 0, names, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, s=None):
        x = self.peek()
        if x is None or s is not None and x != s:
            raise Unreadable()
        self.i += 1
        return x

    def all(self):
        r = self.sum()
        if self.peek() is not None:
            raise Unreadable()
        return r

    def sum(self):
        r = self.prod()
        while self.peek() in ("+", "-"):
            op = self.take()
            x = self.prod()
            r = T.add(r, x if op == "+" else T.neg(x))
        return r

    def prod(self):
        r = self.unary()
        while self.peek() in ("*", "/"):
            op = self.take()
            x = self.unary()
            r = T.mul(r, x) if op == "*" else T.mul(r, T.pow_(x, T.q(-1)))
        return r

    def unary(self):
        if self.peek() == "-":
            self.take()
            return T.neg(self.unary())
        return self.power()

    def power(self):
        b = self.atom()
        if self.peek() in ("^", "**"):
            self.take()
            return T.pow_(b, self.unary())
        return b

    def atom(self):
        x = self.take()
        if isinstance(x, tuple):
            return x[1]
        if x == "(":
            r = self.sum()
            self.take(")")
            return r
        if x == "|":
            r = self.sum()
            self.take("|")
            return T.fn("abs", r)
        if x in ("log", "log[base="):
            b = self.take()[1] if x == "log" and isinstance(self.peek(), tuple) else self.sum()
            if x != "log":
                self.take("]")
            self.take("(")
            r = self.sum()
            self.take(")")
            return T.fn("ln", r) if b == T.E_ else ("log", r, b)
        if x in self.names:
            return self.names[x]
        if x in CONST:
            return CONST[x]
        if x in FUNCS:
            self.take("(")
            r = self.sum()
            self.take(")")
            n = FUNCS[x]
            return T.pow_(r, T.q(Q(1, 2))) if n == "sqrt" else T.fn(n, r)
        if re.fullmatch(r"[A-Za-z_]+", x):
            raise Undecided(f"unknown name {x} in printed text")
        raise Unreadable()


class Latex:
    """The usual reading of the LaTeX subset: \\frac, \\sqrt, \\cdot, groups, superscripts and named functions."""

    TOKEN = re.compile(r"\s*(\\[A-Za-z]+|\d+\.?\d*(?:e[+-]?\d+)?|[A-Za-z][A-Za-z_]*|.)")

    def __init__(self, text, names):
        self.s, self.i, self.names = text, 0, names

    def peek(self):
        m = self.TOKEN.match(self.s, self.i)
        return m.group(1) if m and self.s[self.i:].strip() else None

    def take(self, s=None):
        x = self.peek()
        if x is None or s is not None and x != s:
            raise Unreadable()
        self.i = self.TOKEN.match(self.s, self.i).end()
        return x

    def all(self):
        r = self.sum()
        if self.peek() is not None:
            raise Unreadable()
        return r

    def sum(self):
        r = self.prod()
        while self.peek() in ("+", "-"):
            op = self.take()
            x = self.prod()
            r = T.add(r, x if op == "+" else T.neg(x))
        return r

    def prod(self):
        r = self.unary()
        while self.peek() in ("\\cdot", "\\times"):
            self.take()
            r = T.mul(r, self.unary())
        return r

    def unary(self):
        if self.peek() == "-":
            self.take()
            return T.neg(self.unary())
        b = self.atom()
        if self.peek() == "^":
            self.take()
            b = T.pow_(b, self.arg())
            if self.peek() == "^":
                raise Unreadable()  # double superscript
        return b

    def arg(self):
        """A group or a single character."""
        if self.peek() == "{":
            self.take()
            r = self.sum()
            self.take("}")
            return r
        x = self.peek()
        if x is not None and x.startswith("\\"):
            return self.atom()
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1
        c = self.s[self.i : self.i + 1]
        self.i += 1
        if c.isdigit():
            return T.q(int(c))
        return self.named(c)

    def named(self, x):
        if x in self.names:
            return self.names[x]
        if x == "e":
            return T.E_
        if re.fullmatch(r"[A-Za-z_]+", x):
            raise Undecided(f"unknown name {x} in printed text")
        raise Unreadable()

    def closed(self):
        """( ... ), possibly sized"""
        x = self.take()
        if x == "\\left":
            b = self.take()
            r = self.sum()
            self.take("\\right")
            self.take({"(": ")", "|": "|", "[": "]"}.get(b))
            return b, r
        if x in ("(", "|", "["):
            r = self.sum()
            self.take({"(": ")", "|": "|", "[": "]"}[x])
            return x, r
        raise Unreadable()

    def func(self, n):
        x = None
        if self.peek() == "^":
            self.take()
            x = self.arg()
        b, r = self.closed()
        if b != "(":
            raise Unreadable()
        inv = {"sin": "asin", "cos": "acos", "tan": "atan"}
        if x is not None and T.isq(x) and x[1] == -1 and n in inv:
            return T.fn(inv[n], r)
        r = T.fn(n, r)
        return r if x is None else T.pow_(r, x)

    def atom(self):
        x = self.peek()
        if x in ("(", "|", "\\left"):
            b, r = self.closed()
            return T.fn("abs", r) if b == "|" else r
        if x == "{":
            return self.arg()
        x = self.take()
        if x[0].isdigit():
            return T.q(Q(x) if x.isdigit() else Q(float(x)))
        if x == "\\frac":
            n, d = self.arg(), self.arg()
            return T.mul(n, T.pow_(d, T.q(-1)))
        if x == "\\sqrt":
            return T.pow_(self.arg(), T.q(Q(1, 2)))
        if x == "\\pi":
            return T.PI
        if x == "\\infty":
            return T.INF
        if x == "\\log":
            b = None
            if self.peek() == "_":
                self.take()
                b = self.arg()
            k, r = self.closed()
            return ("log", r, b if b is not None else T.q(10))
        if x in ("\\text", "\\operatorname", "\\mathrm"):
            self.take("{")
            n = self.take()
            self.take("}")
            if n not in FUNCS:
                raise Undecided(f"unknown name {n} in printed text")
            return self.func(FUNCS[n])
        if x.startswith("\\"):
            if x[1:] not in FUNCS:
                raise Undecided(f"unknown command {x}")
            return self.func(FUNCS[x[1:]])
        return self.named(x)


def claims(it, x, t, note, loc, rule=None):
    """At unknown values, and at small whole values (powers of negative numbers have a value there)."""
    out = [Claim(x.term(), t, "read back", rule=rule, loc=loc, note=note)]
    syms = sorted(v.rep().uid for v in it.env.values() if isinstance(v, ExprV) and isinstance(v.rep().f.get("name"), str))
    for vals in ((2, 3, 4, 5, 6, 7), (3, 2, 3, 4, 3, 2)):
        m = {("a", u): T.q(n) for u, n in zip(syms, vals)}
        if m:
            out.append(Claim(T.replace_leaf(x.term(), m), T.replace_leaf(t, m), "read back at whole numbers", rule=rule, loc=loc, note=note))
    return out


def show_text(text):
    if isinstance(text, str):
        return text
    return "".join(p if isinstance(p, str) else "#" for p in text.parts)


def entries(deep=False):
    m, K = get_model(), kinds()
    B = Builder()
    out = []

    def printed(it, v):
        x = v.rep()
        if x.exact is None:
            raise Undecided("printing an unknown expression")
        if K.fields[x.exact] and not any(n in x.f for n in K.fields[x.exact]):
            return StrV([("atom", x)])
        l = x.exact.lookup("__repr__")
        return it.call(it.bind(it.member(l[0], "__repr__"), x, x.exact), [], {})

    a, b, c, ab = "$a", "$b", "$c", "$ab"
    numbers = [5, -5, 1, -1, Q(2, 3), Q(-2, 3), Q(1, 2), Q(-1, 2), 2.5, -2.5, 0.5, -0.5]
    coeffs = [5, -5, -1, Q(2, 3), Q(-2, 3), Q(1, 2), Q(-1, 2), 2.5, -2.5]
    some = [a, ab, "pi", "e"]
    some += [("Sum", a, b), ("Sum", ("Prod", -1, a), b), ("Sum", ("Prod", 5, a), ("Prod", -5, b)), ("Sum", ("Prod", -1, a), ("Prod", Q(-1, 2), b)), ("Sum", a, -5), ("Sum", a, ("pow", b, -1))]
    some += [("Prod", n, a) for n in coeffs] + [("Prod", a, b), ("Prod", a, ab), ("Prod", -1, ab), ("Prod", 5, "pi"), ("Prod", -5, ab, a), ("Prod", a, ("pow", b, -1)), ("Prod", a, ("pow", b, -2), ("pow", c, -1)), ("Prod", -5, a, ("pow", b, -2)), ("Prod", Q(2, 3), a, ("pow", b, -1))]
    some += [("Prod", 5, ("Sum", a, b)), ("Prod", -5, ("Sum", a, b)), ("Prod", -1, ("Sum", a, b), c), ("Prod", ("Sum", a, b), ("Sum", a, c)), ("Prod", ("pow", ("Sum", a, b), -1), c), ("Prod", ("pow", a, -1), ("pow", b, -1)), ("Prod", a, ("pow", ab, -1)), ("Prod", a, ("pow", b, Q(-1, 2)))]
    some += [("pow", a, n) for n in numbers if n != 1] + [("pow", a, b), ("pow", a, ("Prod", -1, b)), ("pow", a, ("Sum", b, c)), ("pow", a, ("pow", b, c)), ("pow", ("pow", a, b), c), ("pow", a, ab), ("pow", ab, 5), ("pow", ab, -1), ("pow", ab, Q(-1, 2)), ("pow", a, "pi"), ("pow", "pi", a), ("pow", "e", a)]
    some += [("pow", ("Sum", a, b), n) for n in (5, -5, -1, Q(1, 2), Q(-1, 2), Q(-2, 3), 2.5)] + [("pow", ("Sum", a, b), c), ("pow", ("Prod", a, b), c), ("pow", ("Prod", a, b), ("Sum", c, 5)), ("pow", ("Prod", -1, a), c)]
    some += [("pow", n, a) for n in (5, -5, Q(2, 3), Q(-2, 3), 2.5, -2.5)] + [("pow", 5, Q(1, 2)), ("pow", 5, Q(2, 3)), ("pow", Q(2, 3), Q(1, 2)), ("pow", 5, Q(-1, 2))]
    some += [("log", a, n) for n in (10, "e", Q(2, 3), b, ("Sum", b, c), 2.5)] + [("log", ("Sum", a, b), "e"), ("log", ("Prod", a, b), 10), ("Abs", a), ("Abs", ("Sum", a, b)), ("sin", a), ("sin", ("Sum", a, b)), ("pow", ("sin", a), 5), ("pow", ("sin", a), -1), ("pow", ("Abs", a), 5), ("pow", ("log", a, "e"), 5), ("pow", ("log", a, "e"), -1)]
    shapes = numbers + some
    unknown = [("Sum", "$a", "q"), ("Prod", "q", "$a"), ("Power", "$a", "q"), ("Sum", ("Prod", "q", "$a"), "$b"), "q", "f", ("Power", "$a", "f"), ("Prod", "f", "$a"), ("log", "$a", "q"), ("Prod", ("Power", "$a", "q"), "$b")]
    unknown += [(n, "A") for n in K.by_name if n in K.TRIG or n == "Abs"] + ["A", ("Power", "A", "B"), ("log", "A", "B")]

    def show(s):
        if isinstance(s, tuple):
            return f"{show(s[1])}^{show(s[2])}" if s[0] in ("Power", "pow") else f"{s[0]}({', '.join(show(v) for v in s[1:])})"
        return {"q": "rational q", "f": "float f"}.get(s, str(s).lstrip("$"))

    def rename(s):
        """The second operand uses other unknowns."""
        if isinstance(s, tuple):
            return (s[0], *[rename(v) for v in s[1:]])
        return {"$a": "$u", "$b": "$v", "$c": "$w", "$ab": "$uv"}.get(s, s) if isinstance(s, str) else s

    def add(spec, open_=False, latex=True):
        c = spec[0] if isinstance(spec, tuple) else None
        cls = m.cls("Power" if c == "pow" else c) if c else None
        l = cls.lookup("__repr__") if cls else None
        f = l[1][1] if l and l[1][0] == "func" else None

        def go(it):
            B.start(it, not open_)
            x = B.item(it, spec)
            try:
                text = it.to_str(x)
            except Raised as e:
                return [Claim(T.ONE, T.ZERO, f"is printed (raises {e.args[0]})", loc=f and f.loc(f.node))]
            if not isinstance(text, (str, StrV)):
                raise Undecided("text")
            names = {v.rep().f["name"]: v.term() for v in it.env.values() if isinstance(v, ExprV) and isinstance(v.rep().f.get("name"), str)}
            try:
                t = Reader(tokens(it, text), names).all()
            except Unreadable:
                return [Claim(T.ONE, T.ZERO, "the text can be read", loc=f and f.loc(f.node), note=f" text {show_text(text)}")]
            return claims(it, x, t, f" text {show_text(text)}", f and f.loc(f.node))

        def tex(it):
            B.start(it, True)
            x = B.item(it, spec).rep()
            if x.exact is None:
                raise Undecided("printing an unknown expression")
            l = x.exact.lookup("latex")
            loc = l[1][1].loc(l[1][1].node) if l and l[1][0] == "func" else None
            try:
                text = it.call(it.bind(it.member(l[0], "latex"), x, x.exact), [], {})
            except Raised as e:
                return [Claim(T.ONE, T.ZERO, f"is printed (raises {e.args[0]})", rule="LaTeX reads back", loc=loc)]
            if not isinstance(text, str):
                raise Undecided("text")
            names = {v.rep().f["name"]: v.term() for v in it.env.values() if isinstance(v, ExprV) and isinstance(v.rep().f.get("name"), str)}
            try:
                t = Latex(text, names).all()
            except Unreadable:
                return [Claim(T.ONE, T.ZERO, "can be read", rule="LaTeX reads back", loc=loc, note=f" text {text}")]
            return claims(it, x, t, f" text {text}", loc, "LaTeX reads back")

        if not open_ and latex:
            o = dict(B.options(True))
            o["inline"] |= {("attr", "latex")}
            out.append(Entry(f"LaTeX of {show(spec)}", tex, f, "LaTeX reads back", paths=60, secs=3, repr_hook=lambda it, v: printed(it, v), **o))
        opts = B.options(not open_)
        out.append(Entry(f"text of {show(spec)}", go, f, "text reads back", paths=120, secs=3, repr_hook=lambda it, v: printed(it, v), **opts))

    for s in unknown:
        add(s, True)
    for s in shapes:
        add(s)
        for k in ("sin", "Abs"):
            add((k, s))
        add(("log", s, "e"))
        add(("log", "$u", s))
    second = shapes if deep else shapes[::2]
    for i, s in enumerate(shapes):
        for j, t in enumerate(second):
            t = rename(t)
            tex = deep or (i + j) % 3 == 0
            add(("pow", s, t), latex=tex)
            add(("Sum", s, t), latex=tex)
            add(("Prod", s, t), latex=tex)
    return out


def run(rep):
    return engine.check(
        rep, lambda: entries(rep.tier == "thorough"), 200,
        "The __repr__ of every kind of expression is interpreted for every kind of operand in every operand position (two levels of nesting, unknown numbers of every sign); the text template, read with the usual precedence and associativity, "
        "must denote the value of the expression. The same for latex().",
        "the text read with usual precedence denotes the expression")
