"""Explores the branch partitions of an entry and compares value numbers at its return sites."""
import ast
import copy
import random
import signal
import sys
import time
import traceback
from multiprocessing import get_context

from . import terms as T
from .interp import Budget, Env, Interp, _Return
from .values import BoolV, Done, ExprV, Infeasible, NumV, Opaque, PList, Raised, StrV, Undecided, as_term


LONG, LONG_PATHS = 7, 8


class Late(BaseException):
    pass


def _late(*_):
    raise Late()


class Entry:
    """One obligation: run `go(it)` on every partition; it returns a list of Claim."""

    def __init__(self, name, go, func=None, rule="value", paths=400, secs=6.0, **opts):
        self.name, self.go, self.entry_func, self.rule = name, go, func, rule
        self.paths, self.secs = paths, secs
        self.loc = func.loc() if func is not None and hasattr(func, "loc") else ""
        for k, v in opts.items():
            setattr(self, k, v)


class Claim:
    """actual must denote expected."""

    def __init__(self, expected, actual, what="", rule=None, loc=None, note=""):
        self.expected, self.actual, self.what, self.rule, self.loc, self.note = expected, actual, what, rule, loc, note


class Outcome:
    def __init__(self):
        self.paths = self.returns = self.raised = self.infeasible = self.undecided = self.compared = self.nosample = 0
        self.findings = {}
        self.why = {}
        self.exhausted = False
        self.events = {}
        self.errors = {}
        self.raises = {}
        self.facts = {}
        self.used_k = False

    def merge(self, o):
        for n in ("paths", "returns", "raised", "infeasible", "undecided", "compared", "nosample"):
            setattr(self, n, getattr(self, n) + getattr(o, n))
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        for n in ("why", "events", "errors", "raises"):
            d = getattr(self, n)
            for k, v in getattr(o, n).items():
                d[k] = d.get(k, 0) + v

    def reason(self, d, k):
        d[k] = d.get(k, 0) + 1


def actual_term(v):
    if isinstance(v, (ExprV, NumV)):
        return as_term(v)
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)) or type(v).__name__ == "Fraction":
        return as_term(v)
    return None


def compare(world, exp, act, seed, n=10, strict_domain=False):
    """(#agree, #differ, example, #act undefined)"""
    agree = differ = undef = 0
    ex = None
    for s in world.samples(seed, 6 * n):
        if agree + differ >= n or agree + differ + undef >= n and agree + differ >= n // 2:
            break
        try:
            e = s.ev(exp)
        except T.Reject:
            continue
        try:
            a = s.ev(act)
        except T.Reject:
            undef += 1
            continue
        if T.close(e, a):
            agree += 1
        else:
            differ += 1
            if ex is None:
                ex = (s, e, a)
    return agree, differ, ex, undef


def never_defined(world, t, seed):
    """A subterm without unknowns that has no value."""
    for u in T.subterms(t):
        if u[0] == "pow" and all(isinstance(v, tuple) and v and v[0] in ("q", "pow", "mul", "add") for v in T.subterms(u) if isinstance(v, tuple)):
            for s in world.samples(seed, 1):
                try:
                    s.ev(u)
                except T.Reject:
                    return u
    return None


def describe(world, s, t):
    leaves = []
    for u in T.subterms(t):
        if u[0] == "a":
            r = world.leaf_rep(u[1])
            if r not in leaves:
                leaves.append(r)
    out = []
    for u in leaves[:10]:
        try:
            out.append(f"{world.name(u)}={T._mp(s.leaf(u, ()))!s:.12}")
        except Exception:
            pass
    return ", ".join(out)


def ret_text(hit):
    if not hit:
        return ""
    fn, node = hit
    try:
        t = ast.unparse(node)
    except Exception:
        t = "return"
    t = f"{fn.short} {t}"
    return t if len(t) < 140 else t[:137] + "..."


def explore(entry, seed=1):
    out = Outcome()
    rnd = random.Random(seed)
    work = [()]
    seen = 0
    t0 = time.process_time()
    while work:
        if out.paths >= entry.paths or time.process_time() - t0 > entry.secs:
            break
        seen += 1
        m = seen % 3
        if m == 0:
            script = work.pop(0)
        elif m == 1:
            script = work.pop()
        else:
            i = rnd.randrange(len(work))
            work[i], work[-1] = work[-1], work[i]
            script = work.pop()
        it = None
        try:
            signal.signal(signal.SIGVTALRM, _late)
            signal.setitimer(signal.ITIMER_VIRTUAL, max(entry.secs, 1.0))
            it = Interp(script, entry)
            out.paths += 1
            claims = None
            try:
                claims = entry.go(it)
                out.returns += 1
            except Done:
                out.returns += 1
            except Raised as r:
                out.raised += 1
                out.reason(out.raises, f"{r.exc}{r.eargs if r.eargs else ''}")
            if claims:
                for c in claims:
                    judge(entry, out, it, c, seed)
            for k in () if getattr(entry, "no_side", False) else it.side:
                judge(entry, out, it, k, seed)
            for e in it.world.events:
                out.reason(out.events, e)
        except Infeasible:
            out.infeasible += 1
        except Undecided as u:
            out.undecided += 1
            out.reason(out.why, str(u))
        except Budget as b:
            out.undecided += 1
            out.reason(out.why, str(b))
        except Late:
            out.undecided += 1
            out.reason(out.why, "path takes too long")
        except (RecursionError, T.Reject) as ex:
            out.undecided += 1
            out.reason(out.why, type(ex).__name__ + str(ex)[:60])
        except Exception as ex:  # an unmodelled construct: this partition is not decided
            out.undecided += 1
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            out.reason(out.errors, f"{type(ex).__name__}: {ex} at {tb.filename.split('/')[-1]}:{tb.lineno}")
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if it is not None:
            out.used_k = out.used_k or getattr(it.world, "used_k", False)
            log = it.log
            base = [c for c, n in log]
            for i in range(len(script), len(log)):
                c, n = log[i]
                for alt in range(n):
                    if alt != c:
                        work.append(tuple(base[:i]) + (alt,))
    out.exhausted = not work
    return out


def judge(entry, out, it, c, seed):
    if isinstance(c.actual, tuple) and c.actual and isinstance(c.actual[0], str) or c.actual is None:
        a = c.actual
    else:
        try:
            a = actual_term(c.actual)
        except Undecided as u:
            out.undecided += 1
            out.reason(out.why, str(u))
            return
    if a is None:
        out.undecided += 1
        out.reason(out.why, f"result {type(c.actual).__name__}")
        return
    if callable(c.expected):
        exp = c.expected()
    else:
        exp = c.expected
    if exp == a:
        out.compared += 1
        return
    n = 8
    agree, differ, ex, undef = compare(it.world, exp, a, seed, n)
    if agree + differ == 0:
        it.world.wide = T.near(it.world.thresholds())
        if it.world.wide:
            agree, differ, ex, undef = compare(it.world, exp, a, seed, n)
    if agree + differ == 0:
        u = never_defined(it.world, a, seed) if undef >= n else None
        if u is not None:
            hit = it.origins.get(id(c.actual))
            hit = hit[1:] if hit else None
            key = (c.rule or entry.rule, entry.name + partition(it, exp) + (f" {c.what}" if c.what else "") + short(it, a))
            nm = it.world.name
            loc = c.loc or (hit[0].loc(hit[1]) if hit else entry.loc)
            out.findings.setdefault(key, (loc, f"denotes {T.show(a, nm)[:300]}, undefined because of {T.show(u, nm)[:80]}, where {T.show(exp, nm)[:300]} is required and defined; {ret_text(hit)}; branch facts: {facts(it)}"))
            return
        out.nosample += 1
        return
    if differ:
        # confirm on other assignments: the difference must persist
        ag2, df2, ex2, _ = compare(it.world, exp, a, seed + 1000, 12)
        if differ + df2 < 2 or df2 == 0:
            out.nosample += 1
            return
        s, e, v = ex
        hit = it.origins.get(id(c.actual))
        hit = hit[1:] if hit else None
        key = (c.rule or entry.rule, entry.name + partition(it, exp) + (f" {c.what}" if c.what else "") + short(it, a))
        if key not in out.findings:
            loc = c.loc
            if loc is None and hit:
                fn, node = hit
                loc = fn.loc(node)
            nm = it.world.name
            msg = (f"denotes {T.show(a, nm)[:300]} where {T.show(exp, nm)[:300]} is required"
                   f" (e.g. {T._mp(v)!s:.14} instead of {T._mp(e)!s:.14} at {describe(it.world, s, ('add', exp, a))}){c.note}; {ret_text(hit)}; branch facts: {facts(it)}")
            out.findings[key] = (loc or entry.loc, msg)
    else:
        out.compared += 1


def partition(it, exp):
    """The kinds the entry's operands have on this path: identifies a finding independently of how the code is written."""
    seen, out = set(), []
    for u in T.subterms(exp):
        if u[0] == "a":
            r = it.world.leaf_rep(u[1])
            x = it.world.leaf.get(r)
            if r in seen or not isinstance(x, ExprV):
                continue
            seen.add(r)
            x = x.rep()
            if x.exact is not None and r in it.world.names and x.exact.name != "Symbol":
                out.append(f"{it.world.names[r]} is {x.exact.name}")
    return " [" + ", ".join(sorted(out)) + "]" if out else ""


def short(it, a):
    t = T.show(a, it.world.name)
    return f" gives {t}" if len(t) < 50 else ""


def facts(it):
    nm = it.world.name
    out = []
    for k, d, tr in it.world.facts[:12]:
        op = {"lt": "<", "le": "<=", "numeq": "==", "eq": "=="}.get(k, k)
        out.append(("" if tr else "not ") + f"{T.show(d[0], nm)[:60]} {op} {T.show(d[1], nm)[:60]}")
    for uid, x in it.world.leaf.items():
        if isinstance(x, ExprV) and x.rep() is x and x.exact is not None and x.uid in it.world.names:
            out.append(f"{it.world.name(uid)} is {x.exact.name}")
    return "; ".join(out[:16])


# ---------------------------------------------------------------- parallel driver
_make = None


def _work(arg):
    i, seed = arg
    sys.setrecursionlimit(20000)
    e = _make()[i]
    try:
        o = explore(e, seed)
        if o.used_k and not hasattr(e, "k_list"):
            # sums and products of many terms: a few partitions show whether any of the terms is dropped or treated apart
            n = copy.copy(e)
            n.k_list, n.paths, n.secs = (LONG,), LONG_PATHS, min(e.secs, 2.5)
            o.merge(explore(n, seed))
        return i, o
    except Exception:
        o = Outcome()
        o.errors[traceback.format_exc()[-400:]] = 1
        return i, o


def run_all(make, seed=1, procs=8):
    """make(): list of entries (rebuilt in each worker by forking)."""
    global _make
    es = make()
    _make = lambda: es
    if procs <= 1 or len(es) <= 1:
        return [(es[i], _work((i, seed))[1]) for i in range(len(es))]
    with get_context("fork").Pool(procs) as pool:
        res = dict(pool.imap_unordered(_work, [(i, seed) for i in range(len(es))], chunksize=1))
    return [(es[i], res[i]) for i in range(len(es))]


def report(rep, results):
    """Feeds outcomes into a Report."""
    for e, o in results:
        rep.count("obligations")
        rep.count("branch partitions", o.paths)
        rep.count("return values compared", o.compared)
        rep.count("partitions ending in a refusal", o.raised)
        rep.count("partitions not decided", o.undecided + o.nosample)
        if o.exhausted:
            rep.count("obligations explored completely")
        if not o.compared:
            rep.undecide(e.name, "; ".join(list(o.why)[:3] + list(o.errors)[:2]) or "no comparable return value")
        rep.sample(f"{e.name}: {o.paths} partitions, {o.compared} return values compared, {o.raised} refusals, {o.undecided} undecided")
        for (rule, construct), (loc, msg) in o.findings.items():
            rep.find(rule, construct, loc, msg)


ASSUME = (
    "value semantics over the reals (domain of definition as in /verif/DESIGN.md, 'vflow'); callees named by a contract are assumed to meet it here and are obligations of their own check",
    "lists of unknown length are represented by lists of 2 and 3 unknown items; recursion is cut at the contracts",
)


def check(rep, make, floor, explanation, rule, assumptions=(), seeds=None):
    """Runs all obligations of a check and reports."""
    thorough = rep.tier == "thorough"

    def scaled():
        es = make()
        if thorough:
            for e in es:
                e.paths, e.secs = e.paths * 8, e.secs * 5
                if not hasattr(e, "k_list"):
                    e.k_list = (2, 3, 4)
        return es

    for seed in seeds or ((1, 2) if thorough else (1,)):
        report(rep, run_all(scaled, seed))
    rep.floor("obligations", floor)
    return rep.finish(explanation, rule, tuple(assumptions) + ASSUME)
