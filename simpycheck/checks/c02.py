"""C02: results do not depend on what was computed before."""
import ast

from ..astutil import FUNC, callees, enclosing_class, func_of_node, lookup, module_parents, own_nodes, params, resolve, scope
from ..flow import reaching
from ..model import Class, Func, get_model
from ..owners import INIT, LIST_MUTATORS, Owners, bind_args

CONTAINERS = {"list", "dict", "set", "bytearray", "defaultdict", "OrderedDict", "Counter", "deque", "array", "zeros", "ones", "empty"}
ONE_SHOT = {"map", "filter", "zip", "iter", "reversed", "enumerate", "chain", "product", "permutations", "combinations", "count", "cycle", "islice", "from_iterable"}
MUTATORS = LIST_MUTATORS | {"add", "discard", "update", "setdefault", "popitem", "appendleft", "popleft", "extendleft", "rotate", "subtract", "intersection_update", "difference_update", "symmetric_difference_update", "move_to_end"}
LOSSY_OK = {"repr", "str", "tuple", "frozenset"}


def callee_name(e):
    return e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""


def container(e):
    """Does the expression build a container that can be changed?"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        return callee_name(e) in CONTAINERS
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
        return container(e.left) or container(e.right)
    return False


def one_shot(f, e):
    """Does the expression build an iterator that is used up by iterating it once?"""
    if isinstance(e, ast.GeneratorExp):
        return True
    if isinstance(e, ast.Call):
        r = resolve(f, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        if r and r[0] == "builtin":
            return r[1].split(".")[-1] in ONE_SHOT
        if r and r[0] == "ext":
            return r[1].startswith("itertools.")
        for g in callees(f, e):
            if isinstance(g, Func) and not isinstance(g.node, ast.Lambda) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(g.node)):
                return True
    return False


def in_debug(f):
    m = f.module if isinstance(f, (Func, Class)) else f
    return ".debug" in m.name


class Memo:
    """Remembered results: stores to attributes of existing expressions (or classes, or module tables) that later calls read."""

    def __init__(self, f, node, base, attr, key, value):
        self.f, self.node, self.base, self.attr, self.key, self.value = f, node, base, attr, key, value


class History:
    def __init__(self):
        self.m = get_model()
        self.o = Owners()
        self.funcs = [f for f in self.m.funcs if not in_debug(f)]
        self.kinds = self.o.kinds
        self.out = []
        self.memos = []
        self.counts = {}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def find(self, rule, construct, loc, msg):
        self.out.append((rule, construct, loc, msg))

    # ------------------------------------------------------------ dependencies
    def deps(self, f, e, stop=(), seen=None, control=None):
        """Parameters of f (or enclosing functions) the value of e depends on; `stop`: names taken as given."""
        seen = set() if seen is None else seen
        out = set()
        for n in ast.walk(e) if e is not None else ():
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in stop:
                out |= self.name_deps(f, n, stop, seen)
        return out

    def name_deps(self, f, n, stop, seen):
        g = f
        nm = n.id
        while g is not None:
            s = scope(g)
            if nm in s.params and nm not in s.assigned:
                return {nm} if g is f or g.parent is None or True else set()
            if nm in s.assigned or nm in s.nested or nm in s.params:
                break
            g = g.parent
        if g is None:
            return set()
        key = (g, nm)
        if key in seen:
            return set()
        seen.add(key)
        out = {nm} if nm in scope(g).params else set()
        if nm in scope(g).nested:
            h = func_of_node(scope(g).nested[nm])
            if h is not None:
                hs = scope(h)
                for x in ast.walk(h.node):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in hs.params and x.id not in hs.assigned and x.id not in stop:
                        out |= self.name_deps(g, x, stop, seen)
            return out
        pm = module_parents(g.module)
        for st in own_nodes(g.node, include_nested=True):
            touched, vals = False, []
            if isinstance(st, ast.Assign) and any(nm in names_of(t) for t in st.targets):
                touched, vals = True, [st.value]
            elif isinstance(st, (ast.AugAssign, ast.AnnAssign)) and nm in names_of(st.target) and st.value is not None:
                touched, vals = True, [st.value]
            elif isinstance(st, (ast.For, ast.comprehension)) and nm in names_of(st.target):
                touched, vals = True, [st.iter]
            elif isinstance(st, ast.NamedExpr) and st.target.id == nm:
                touched, vals = True, [st.value]
            elif isinstance(st, ast.withitem) and st.optional_vars is not None and nm in names_of(st.optional_vars):
                touched, vals = True, [st.context_expr]
            elif isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr in MUTATORS and root(st.func.value) == nm:
                touched, vals = True, list(st.args) + [k.value for k in st.keywords]
            elif isinstance(st, ast.Assign) and any(isinstance(t, (ast.Subscript, ast.Attribute)) and root(t) == nm for t in st.targets):
                touched, vals = True, [st.value] + [t.slice for t in st.targets if isinstance(t, ast.Subscript)]
            if not touched:
                continue
            for v in vals:
                out |= self.deps(g, v, stop, seen)
            out |= self.controls(g, st, stop, seen, pm)
        return out

    def controls(self, f, st, stop, seen, pm, guard=None):
        """Dependencies of the conditions a statement stands under (inside f)."""
        out = set()
        n, c = pm.get(st), st
        while n is not None and n is not f.node:
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and c is not n.test and not (guard and guard(n.test)):
                out |= self.deps(f, n.test, stop, seen)
            elif isinstance(n, (ast.For,)) and c is not n.iter:
                out |= self.deps(f, n.iter, stop, seen)
            n, c = pm.get(n), n
        return out

    # ------------------------------------------------------------ default arguments
    def defaults(self):
        for f in self.funcs:
            a = f.node.args
            pos = a.posonlyargs + a.args
            pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for p, d in pairs:
                self.count("default arguments")
                where = f.parent or f.module
                if one_shot(where, d):
                    self.find("default argument", f"{f.short}({p.arg})", f.loc(d), f"the default `{ast.unparse(d)}` of {p.arg} is an iterator: the first call that uses it uses it up")
                    continue
                stateful = self.stateful_call(where, d)
                if stateful:
                    self.find("default argument", f"{f.short}({p.arg})", f.loc(d), f"the default `{ast.unparse(d)}` is one {stateful} object shared by all calls, and {stateful} objects keep state")
                    continue
                if not container(d) and not self.shared_container(where, d):
                    continue
                hit = self.o.mutates.get((f, p.arg)) or self.param_changed(f, p.arg)
                esc = self.escapes(f, p.arg)
                if hit:
                    self.find("default argument", f"{f.short}({p.arg})", f.loc(d), f"the default `{ast.unparse(d)}` of {p.arg} is one object for all calls, and {f.short} changes it ({hit[2]} at {hit[0].loc(hit[1])}): later calls see what earlier ones left")
                elif esc is not None:
                    self.find("default argument", f"{f.short}({p.arg})", f.loc(d), f"the default `{ast.unparse(d)}` of {p.arg} is one object for all calls, and {f.short} hands it out (`{ast.unparse(esc)[:80]}`)")

    def shared_container(self, f, d):
        if isinstance(d, (ast.Name, ast.Attribute)):
            r = resolve(f, d)
            return bool(r) and r[0] == "assign" and r[2] is not None and container(r[2])
        return False

    def param_changed(self, f, p):
        """Changes of dictionaries, sets and other containers (lists are in Owners)."""
        for g in [f] + [h for h in self.funcs if h.parent is f]:
            for n in own_nodes(g.node):
                t = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    t = n.func.value
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for x in n.targets if not isinstance(n, ast.AugAssign) else [n.target]:
                        if isinstance(x, ast.Subscript):
                            t = x.value
                        elif isinstance(n, ast.AugAssign) and isinstance(x, ast.Name):
                            t = x
                if isinstance(t, ast.Name) and t.id == p:
                    ds = reaching(g).get(t) if g is f else {("param", p)}
                    if ds is None or ("param", p) in ds:
                        return (g, n, ast.unparse(n)[:60])
        return None

    def escapes(self, f, p):
        for n in own_nodes(f.node):
            v = None
            if isinstance(n, ast.Return):
                v = n.value
            elif isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                v = n.value
            elif isinstance(n, ast.Yield):
                v = n.value
            for x in [v] if not isinstance(v, (ast.Tuple, ast.IfExp, ast.BoolOp)) else list(ast.iter_child_nodes(v)):
                if isinstance(x, ast.Name) and x.id == p and ("param", p) in reaching(f).get(x, ()):
                    return n
        return None

    # ------------------------------------------------------------ objects made once, with state
    def stateful(self, c):
        """Classes whose objects change after construction (attributes stored outside constructors, or lists of their own)."""
        if c in self.kinds:
            return False
        for k in c.mro_classes():
            for n, mb in k.members.items():
                if mb[0] == "func" and mb[1].name not in INIT:
                    for x in own_nodes(mb[1].node, include_nested=True):
                        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                                for y in ast.walk(t):
                                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and root(y) == "self":
                                        return True
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Attribute) and root(x.func.value) == "self":
                            return True
        return False

    def stateful_call(self, f, e):
        for n in ast.walk(e) if e is not None else ():
            if isinstance(n, FUNC):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                r = resolve(f, n.func)
                if r and r[0] == "class" and self.stateful(r[1]):
                    return r[1].name
        return None

    def globals_(self):
        """Module-level and class-level values."""
        self.module_state, self.class_state = {}, {}
        for mod in self.m.modules.values():
            if in_debug(mod):
                continue
            for st in mod.tree.body:
                for t, v in assigned(st):
                    self.count("module-level values")
                    self.module_state[(mod.name, t)] = v
                    self.once(mod, t, v, f"{mod.name}.{t}", f"{mod.rel}:{st.lineno}")
        for c in self.classes():
            for st in c.node.body:
                for t, v in assigned(st):
                    self.count("class-level values")
                    self.class_state[(c, t)] = v
                    self.once(c.module, t, v, f"{c.name}.{t}", f"{c.module.rel}:{st.lineno}")

    def classes(self):
        cs = self.m.classes
        return [c for c in (cs.values() if isinstance(cs, dict) else cs) if not in_debug(c)]

    def once(self, mod, t, v, text, loc):
        if one_shot(mod, v):
            used = self.iterated(t)
            if used:
                self.find("shared iterator", text, loc, f"{text} is an iterator made once (`{ast.unparse(v)[:80]}`) and {used} iterates it: the first use leaves it empty for all later ones")
        s = self.stateful_call(mod, v)
        if s:
            self.find("shared state", text, loc, f"{text} holds one {s} object made when the module is loaded, and {s} objects keep state from one use to the next")

    def iterated(self, name):
        for f in self.funcs:
            for n in own_nodes(f.node):
                if isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, "id", None) == name or getattr(n, "attr", None) == name) and isinstance(n.ctx, ast.Load):
                    return f.short
        return None

    def global_writes(self):
        """Stores to module variables, to attributes of classes and modules, and changes of module- or class-level containers."""
        tables = {}
        for f in self.funcs:
            sc = scope(f)
            for n in own_nodes(f.node):
                if isinstance(n, ast.Global):
                    for nm in n.names:
                        w = next((x for x in own_nodes(f.node) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, (ast.Store, ast.Del))), None)
                        if w is not None and not self.table_memo(f, w, nm):
                            self.find("module state", f"{f.short}: global {nm}", f.loc(w), f"{f.short} sets the module variable {nm}: later calls see it")
                if isinstance(n, ast.Nonlocal):
                    self.nonlocal_(f, n)
                for base, node, what in changes(n):
                    self.changed(f, base, node, what)
                for t in stores(n):
                    self.attr_store(f, t, n)

    def nonlocal_(self, f, n):
        """A closure keeping state is one object per call of the enclosing function, unless the closure itself is kept at module level."""

    def changed(self, f, e, node, what):
        """e: the container being changed."""
        self.count("container changes")
        if isinstance(e, ast.Name):
            r = lookup(f, e.id)
            if r and r[0] == "assign" and r[2] is not None and container(r[2]):
                if not self.keyed(f, node, e):
                    self.find("module state", f"{f.short}: {e.id}", f.loc(node), f"{f.short} changes the module-level {e.id} ({what}): later calls see it")
            elif r and r[0] == "local":
                for d in reaching(f).get(e, ()):
                    if d[0] == "def" and d[3] == "=" and isinstance(d[2], (ast.Name, ast.Attribute)):
                        self.alias(f, d[2], node, what)
            return
        self.alias(f, e, node, what)

    def alias(self, f, e, node, what):
        if isinstance(e, ast.Name):
            r = lookup(f, e.id)
            if r and r[0] == "assign" and r[2] is not None and container(r[2]):
                self.find("module state", f"{f.short}: {e.id}", f.loc(node), f"{f.short} changes the module-level {e.id} ({what}): later calls see it")
            return
        if not isinstance(e, ast.Attribute):
            return
        r = resolve(f, e)
        if r and r[0] == "assign" and len(r) > 2 and r[2] is not None and container(r[2]):
            if not self.keyed(f, node, e):
                self.find("module state", f"{f.short}: {ast.unparse(e)}", f.loc(node), f"{f.short} changes the module-level {ast.unparse(e)} ({what}): later calls see it")
            return
        c = self.base_class(f, e.value)
        b = e.value
        r = resolve(f, b) if isinstance(b, (ast.Name, ast.Attribute)) else None
        on_class = r and r[0] == "class" or isinstance(b, ast.Name) and b.id == "cls" and enclosing_class(f) is not None or isinstance(b, ast.Attribute) and b.attr == "__class__" or isinstance(b, ast.Call) and callee_name(b) == "type"
        if on_class:
            if not self.keyed(f, node, e):
                self.find("class state", f"{f.short}: {ast.unparse(e)}", f.loc(node), f"{f.short} changes {ast.unparse(e)} ({what}), which the whole class shares, under a key that does not tell apart everything the value depends on: later calls see it")
            return
        if not c:
            c = [k for k in self.classes() if (k, e.attr) in self.class_state and container(self.class_state[(k, e.attr)])]
        for k in c:
            l = k.lookup(e.attr)
            if l and l[1][0] == "assign" and l[1][1] is not None and container(l[1][1]) and not self.own_instance_attr(k, e, f):
                if not self.keyed(f, node, e):
                    self.find("class state", f"{f.short}: {ast.unparse(e)}", f.loc(node), f"{f.short} changes {l[0].name}.{e.attr} ({what}), which all objects of the class share: later calls see it")
                return

    def base_class(self, f, e):
        """Classes an attribute's base may be (an object of) as far as class-level values are concerned."""
        if isinstance(e, ast.Name) and e.id in ("self", "cls"):
            c = enclosing_class(f)
            return [c] if c is not None else []
        if isinstance(e, ast.Name):
            r = lookup(f, e.id)
            if r and r[0] == "class":
                return [r[1]]
            for d in reaching(f).get(e, ()):
                if d[0] == "def" and d[3] == "=" and isinstance(d[2], ast.Call):
                    rr = resolve(f, d[2].func) if isinstance(d[2].func, (ast.Name, ast.Attribute)) else None
                    if rr and rr[0] == "class":
                        return [rr[1]]
            if r and r[0] == "param":
                a = next((x for x in ast.walk(r[1].node.args) if isinstance(x, ast.arg) and x.arg == e.id), None)
                ann = a.annotation if a is not None else None
                if isinstance(ann, ast.Constant) and isinstance(ann.value, str) and ann.value.isidentifier():
                    ann = ast.Name(id=ann.value, ctx=ast.Load())
                if isinstance(ann, (ast.Name, ast.Attribute)):
                    rr = resolve(f, ann)
                    if rr and rr[0] == "class":
                        return [rr[1]]
        if isinstance(e, ast.Attribute) and e.attr == "__class__" or isinstance(e, ast.Call) and callee_name(e) == "type":
            c = enclosing_class(f)
            return [c] if c is not None else []
        return []

    def own_instance_attr(self, k, e, f):
        """The attribute is given a value of its own in the constructor of every object of class k."""
        if not (isinstance(e.value, ast.Name) and e.value.id != "cls") or lookup(f, e.value.id) is not None and lookup(f, e.value.id)[0] == "class":
            return False
        if any(n == e.attr for n, *_ in k.dataclass_fields()):
            return True
        for ini in INIT:
            l = k.lookup(ini)
            while l is not None:
                if l[1][0] == "func":
                    g = l[1][1]
                    for st in top_level(g.node.body):
                        for t in stores(st):
                            if t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == "self":
                                return True
                    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == ini and isinstance(n.func.value, ast.Call) for n in own_nodes(g.node)):
                        l = k.lookup(ini, after=l[0])
                        continue
                break
        # stored in the same function before the change
        return any(t.attr == e.attr and root(t) == root(e) for n in own_nodes(f.node) for t in stores(n) if n.lineno < e.lineno and isinstance(n, ast.Assign) and not under_condition(f, n, e))

    def attr_store(self, f, t, n):
        """Attribute stores: on classes, modules, and existing expressions."""
        self.count("attribute stores")
        b = t.value
        r = resolve(f, b) if isinstance(b, (ast.Name, ast.Attribute)) else None
        cls_param = isinstance(b, ast.Name) and r and r[0] == "param" and scope(f).params[:1] == [b.id] and enclosing_class(f) is not None and any(d in ("classmethod", "classproperty", "cached_classproperty") for d in dec_last(f))
        if r and r[0] in ("module", "ext"):
            self.find("module state", f"{f.short}: {ast.unparse(t)}", f.loc(n), f"{f.short} sets {ast.unparse(t)}: later calls see it")
        elif r and r[0] == "class":
            if not self.class_memo(f, t, n, r[1]):
                self.find("class state", f"{f.short}: {ast.unparse(t)}", f.loc(n), f"{f.short} sets {ast.unparse(t)} on the class: later calls see it")
        elif isinstance(b, ast.Attribute) and b.attr == "__class__" or isinstance(b, ast.Call) and callee_name(b) == "type" and len(b.args) == 1:
            if not self.class_memo(f, t, n, None):
                self.find("class state", f"{f.short}: {ast.unparse(t)}", f.loc(n), f"{f.short} sets {ast.unparse(t)} on the class of an object: later calls see it")
        elif cls_param or isinstance(b, ast.Name) and b.id == "cls" and f.name != "__new__" and enclosing_class(f) is not None:
            if not self.class_memo(f, t, n, None):
                self.find("class state", f"{f.short}: {ast.unparse(t)}", f.loc(n), f"{f.short} sets {ast.unparse(t)} on the class: later calls see it")
        elif isinstance(b, ast.Name) and t.attr not in self.o.fields and not self.o.fresh_object(f, b) and self.is_expr(f, b, t.attr):
            self.memos.append(Memo(f, n, b, t.attr, None, getattr(n, "value", None)))

    def is_expr(self, f, b, attr=None):
        """May the name be an existing expression (as far as annotations and constructors tell)?"""
        if b.id == "self":
            c = enclosing_class(f)
            return c in self.kinds and f.name not in INIT
        r = lookup(f, b.id)
        if not r or r[0] not in ("param", "local", "comp") or attr in self.foreign():
            return False
        cs = self.base_class(f, b)
        if cs:
            return all(c in self.kinds for c in cs)
        return not self.o.not_expr(f, b) and (r[0] != "param" or self.annotated_expr(r[1], b.id))

    def foreign(self):
        """Attributes of objects that are no expressions."""
        if not hasattr(self, "_foreign"):
            self._foreign = set()
            for c in self.classes():
                if c in self.kinds:
                    continue
                self._foreign |= {n for n, *_ in c.dataclass_fields()} | set(c.members)
                for mb in c.members.values():
                    if mb[0] == "func":
                        for n in own_nodes(mb[1].node, include_nested=True):
                            self._foreign |= {t.attr for t in stores(n) if root(t) == "self"}
            own = set()
            for c in self.kinds:
                own |= set(c.members)
            self._foreign -= {a for a in own if a.startswith("_")}
        return self._foreign

    def annotated_expr(self, f, name):
        a = next((x for x in ast.walk(f.node.args) if isinstance(x, ast.arg) and x.arg == name), None)
        if a is None or a.annotation is None:
            return True
        t = ast.unparse(a.annotation)
        return any(k.name in t for k in self.kinds)

    # ------------------------------------------------------------ remembered results
    def guard_of(self, f, attr, base, pm):
        """Is the test a question about the remembered attribute itself?"""
        def test(t):
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and n.attr == attr:
                    return True
                if isinstance(n, ast.Constant) and n.value == attr:
                    return True
            return False
        return test

    def class_memo(self, f, t, n, fixed):
        """cls.A = V where V depends on the class alone, and no class inherits a value remembered for another one."""
        self.count("class-level memos")
        if not isinstance(n, (ast.Assign, ast.AnnAssign)) or isinstance(n, ast.AugAssign):
            return False
        pm = module_parents(f.module)
        base = root(t)
        guard = self.guard_of(f, t.attr, base, pm)
        if not self.guarded(f, n, guard, pm):
            return False
        stop = {base}
        d = self.deps(f, n.value, stop) | self.controls(f, n, stop, set(), pm, guard)
        if d:
            return False
        if fixed is not None or f.name == "__new__":
            # remembered on one class: must not depend on the class the call is about
            if self.deps(f, n.value, ()) & {"self", "cls"}:
                return False
            if fixed is not None and enclosing_class(f) is not None:
                # read through another class?
                for g in own_nodes(f.node):
                    if isinstance(g, ast.Attribute) and g.attr == t.attr and isinstance(g.ctx, ast.Load) and isinstance(g.value, ast.Name) and g.value.id in ("cls", "self"):
                        return True if fixed is enclosing_class(f) else False
            return True
        c = enclosing_class(f)
        if c is not None:
            concrete = [k for k in [c] + self.m.subclasses(c) if k in self.m.concrete_expr_classes()]
            for k in concrete:
                subs = [s for s in concrete if s is not k and k in s.mro()]
                if subs and not self.reads_own_dict(f, t.attr):
                    return False
        self.check_uses(f, t.attr)
        return True

    def reads_own_dict(self, f, attr):
        return any(isinstance(n, ast.Attribute) and n.attr == "__dict__" for n in own_nodes(f.node))

    def guarded(self, f, n, guard, pm):
        x, c = pm.get(n), n
        while x is not None and x is not f.node:
            if isinstance(x, ast.If) and c is not x.test and guard(x.test):
                return True
            if isinstance(x, (ast.Try, ast.ExceptHandler)):
                return True
            x, c = pm.get(x), x
        # `if has it: return it` before
        for s in own_nodes(f.node):
            if isinstance(s, ast.If) and guard(s.test) and s.lineno < n.lineno and any(isinstance(y, (ast.Return, ast.Raise)) for y in ast.walk(s)):
                return True
            if isinstance(s, ast.Try) and s.lineno < n.lineno and any(isinstance(y, ast.Return) and y.value is not None and guard(y.value) for y in ast.walk(s)):
                return True
        return False

    def keyed(self, f, node, e):
        """A change of a table that only adds V under a key that determines everything V depends on."""
        key = val = None
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            key, val = node.targets[0].slice, node.value
        elif isinstance(node, ast.Call) and callee_name(node) == "setdefault" and len(node.args) == 2:
            key, val = node.args
        if key is None:
            return False
        stop = {root(e)} if root(e) in ("self",) else set()
        pm = module_parents(f.module)
        txt = ast.unparse(e)
        guard = lambda t: any(isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) == txt for x in ast.walk(t))
        k = self.key_params(f, key)
        if k is None:
            return False
        need = self.deps(f, val, ()) | self.controls(f, node, (), set(), pm, guard)
        self.count("keyed tables")
        return need <= k

    def key_params(self, f, key, depth=0):
        """Parameters the key determines, or None when the key loses information in an unknown way."""
        if depth > 6:
            return None
        if isinstance(key, ast.Constant):
            return set()
        if isinstance(key, ast.Name):
            ds = reaching(f).get(key)
            if ds is None:
                return self.deps(f, key, ())
            out, some, chosen = None, set(), set()
            for d in ds:
                if d[0] == "param":
                    r = {d[1]}
                elif d[0] == "def" and d[3] in ("=", "walrus") and d[2] is not None:
                    r = self.key_params(f, d[2], depth + 1)
                else:
                    r = None
                if r is None:
                    return None
                out = r if out is None else out & r
                some |= r
                if len(ds) > 1 and d[0] == "def":
                    chosen |= self.controls(f, d[1], (), set(), module_parents(f.module))
            return out if out is None else out | (chosen & some)
        if isinstance(key, ast.Tuple):
            out = set()
            for x in key.elts:
                r = self.key_params(f, x.value if isinstance(x, ast.Starred) else x, depth + 1)
                if r is None:
                    return None
                out |= r
            return out
        if isinstance(key, ast.Attribute) and key.attr in ("name", "key", "qual", "__name__") and isinstance(key.value, ast.Name):
            return self.key_params(f, key.value, depth + 1)
        if isinstance(key, ast.Call) and callee_name(key) in LOSSY_OK | {"__repr__", "join"} and not key.keywords:
            args = list(key.args) or ([key.func.value] if isinstance(key.func, ast.Attribute) else [])
            out = set()
            for x in args:
                if isinstance(x, ast.GeneratorExp):
                    x = x.generators[0].iter
                r = self.key_params(f, x, depth + 1)
                if r is None:
                    return None
                out |= r
            return out
        if isinstance(key, ast.IfExp):
            a, b = self.key_params(f, key.body, depth + 1), self.key_params(f, key.orelse, depth + 1)
            t = self.deps(f, key.test, ())
            if a is None or b is None:
                return None
            return (a & b) | (t & (a | b))
        if isinstance(key, ast.BoolOp):
            rs = [self.key_params(f, v, depth + 1) for v in key.values]
            if any(r is None for r in rs):
                return None
            return set().union(*rs)
        if isinstance(key, ast.JoinedStr):
            out = set()
            for v in key.values:
                if isinstance(v, ast.FormattedValue):
                    r = self.key_params(f, v.value, depth + 1)
                    if r is None:
                        return None
                    out |= r
            return out
        return None

    def memo_rules(self):
        """Remembered results on existing expressions."""
        by_attr = {}
        for f in self.funcs:
            for n in own_nodes(f.node):
                # X.A[key] = V, X.A.setdefault(key, V)
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                            a = slot_alias(f, t.value)
                            if a is not None and isinstance(a.value, ast.Name) and a.attr not in self.o.fields and not self.o.fresh_object(f, a.value) and self.is_expr(f, a.value, a.attr):
                                self.memos.append(Memo(f, n, a.value, a.attr, t.slice, n.value))
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                            a = t.value
                            if a.attr == "__dict__" and isinstance(t.slice, ast.Constant) and isinstance(a.value, ast.Name) and self.is_expr(f, a.value) and t.slice.value not in self.o.fields:
                                self.memos.append(Memo(f, n, a.value, t.slice.value, None, n.value))
                            elif isinstance(a.value, ast.Name) and a.attr not in self.o.fields and not self.o.fresh_object(f, a.value) and self.is_expr(f, a.value, a.attr):
                                self.memos.append(Memo(f, n, a.value, a.attr, t.slice, n.value))
                if isinstance(n, ast.Call) and callee_name(n) == "setdefault" and len(n.args) == 2 and isinstance(n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name):
                    a = n.func.value
                    if self.is_expr(f, a.value):
                        if a.attr == "__dict__" and isinstance(n.args[0], ast.Constant):
                            self.memos.append(Memo(f, n, a.value, n.args[0].value, None, n.args[1]))
                        elif a.attr != "__dict__":
                            self.memos.append(Memo(f, n, a.value, a.attr, n.args[0], n.args[1]))
                if isinstance(n, ast.Call) and callee_name(n) in ("setattr", "__setattr__") and len(n.args) >= 2 and isinstance(n.args[-2], ast.Constant):
                    b = n.args[0] if len(n.args) == 3 else n.func.value if isinstance(n.func, ast.Attribute) else None
                    if isinstance(b, ast.Name) and n.args[-2].value not in self.o.fields and self.is_expr(f, b) and not self.o.fresh_object(f, b):
                        self.memos.append(Memo(f, n, b, n.args[-2].value, None, n.args[-1]))
        for mm in self.memos:
            by_attr.setdefault(mm.attr, []).append(mm)
        for attr, ms in by_attr.items():
            self.count("remembered results", 1)
            for mm in ms:
                f, pm = mm.f, module_parents(mm.f.module)
                guard = self.guard_of(f, attr, mm.base.id, pm)
                if mm.value is None:
                    continue
                if isinstance(mm.node, ast.AugAssign):
                    self.find("remembered result", f"{attr} in {f.short}", f.loc(mm.node), f"{f.short} updates {ast.unparse(mm.node)[:80]} on an existing expression: every call changes what the next one sees")
                    continue
                stop = {mm.base.id}
                need = self.deps(f, mm.value, stop) | self.controls(f, mm.node, stop, set(), pm, guard)
                have = set()
                if mm.key is not None:
                    have = self.key_params(f, mm.key)
                    if have is None:
                        have = set()
                miss = need - have - {mm.base.id}
                if miss:
                    self.find("remembered result", f"{attr} in {f.short}", f.loc(mm.node),
                              f"{f.short} remembers `{ast.unparse(mm.value)[:80]}` on {mm.base.id}.{attr}{' under ' + ast.unparse(mm.key) if mm.key is not None else ''}, but the value also depends on {', '.join(sorted(miss))}: a later call with another {sorted(miss)[0]} gets the value of the first")
                if one_shot(f, mm.value):
                    self.find("remembered result", f"{attr} in {f.short}", f.loc(mm.node), f"{f.short} remembers an iterator in {attr}: the first use leaves it empty")
            # one slot, one meaning
            texts = {}
            for mm in ms:
                if mm.value is not None and not isinstance(mm.value, ast.Constant):
                    texts.setdefault(mm.f, mm)
            fs = list(texts)
            if len(fs) > 1 and len({ast.unparse(texts[g].value) for g in fs}) > 1:
                self.find("remembered result", f"{attr} shared", fs[1].loc(texts[fs[1]].node), f"{' and '.join(g.short for g in fs)} remember different things in the same slot {attr}: which one a later call finds depends on who came first")
            for g in fs:
                self.check_uses(g, attr)

    def users(self, g):
        """The functions that mention g (as a call or otherwise)."""
        if getattr(self, "_users", None) is None:
            self._users = {}
            for h in self.funcs:
                for n in own_nodes(h.node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                        t = resolve(h, n)
                        if isinstance(t, tuple) and t[0] == "func":
                            self._users.setdefault(t[1], set()).add(h)
                    elif isinstance(n, ast.Attribute):
                        self._users.setdefault(n.attr, set()).add(h)
        return (self._users.get(g, set()) | self._users.get(g.name, set())) - {g}

    def check_uses(self, f, attr):
        """Who reads the slot has made sure it is filled."""
        if getattr(self, "_used", None) is None:
            self._used = set()
        if (f, attr) in self._used:
            return
        self._used.add((f, attr))
        writers = {mm.f for mm in self.memos if mm.attr == attr} | {f}
        safe = set(writers)  # helpers that only run inside the functions that fill the slot
        grew = True
        while grew:
            grew = False
            for g in self.funcs:
                if g not in safe and self.users(g) and self.users(g) <= safe:
                    safe.add(g)
                    grew = True
        for g in self.funcs:
            if g in safe:
                continue
            if g in writers or g.name in INIT:
                continue
            if any(h in writers for h in ancestors(g)):
                continue
            for n in own_nodes(g.node):
                if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Constant) and n.value == attr:
                    if not any(isinstance(c, ast.Call) and any(t in writers for t in callees(g, c)) for c in own_nodes(g.node)):
                        self.find("remembered result", f"{attr} read in {g.short}", g.loc(n), f"{g.short} looks at the remembered {attr} without filling it: what it sees depends on whether {f.short} ran before")
                        break

    # ------------------------------------------------------------ caching decorators
    def decorators(self):
        for f in self.funcs:
            for d in getattr(f.node, "decorator_list", []):
                c = d.func if isinstance(d, ast.Call) else d
                r = resolve(f.parent or f.module, c) if isinstance(c, (ast.Name, ast.Attribute)) else None
                nm = r[1] if r and r[0] == "ext" else ""
                if nm in ("functools.lru_cache", "functools.cache"):
                    self.count("caching decorators")
                    typed = isinstance(d, ast.Call) and any(k.arg == "typed" and isinstance(k.value, ast.Constant) and k.value.value is True for k in d.keywords)
                    a = f.node.args
                    for p in a.posonlyargs + a.args + a.kwonlyargs:
                        t = ast.unparse(p.annotation) if p.annotation is not None else ""
                        if p.arg in ("self", "cls"):
                            if f.cls in self.kinds and p.arg == "self":
                                self.find("remembered result", f"cached {f.short}", f.loc(f.node), f"{f.short} is cached by argument equality, and equal expressions of different kinds (or none at all: expressions have no hash) share an entry")
                            continue
                        if not typed and t not in ("str", "bool", "bytes"):
                            self.find("remembered result", f"cached {f.short}", f.loc(f.node), f"{f.short} is cached by argument equality: 2, 2.0 and True-like arguments for {p.arg} share one entry, so the result depends on which came first")
                            break
                    for v in (x.value for x in own_nodes(f.node) if isinstance(x, ast.Return) and x.value is not None):
                        if one_shot(f, v):
                            self.find("remembered result", f"cached {f.short}", f.loc(f.node), f"{f.short} is cached and returns an iterator: the second caller gets it used up")
                    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f.node)):
                        self.find("remembered result", f"cached {f.short}", f.loc(f.node), f"{f.short} is a cached generator: the second caller gets it used up")

    # ------------------------------------------------------------ what is remembered is handed out
    def handed_out(self):
        """Lists and tables that are remembered may be read by everyone and changed by nobody."""
        for f, n, what, owner in self.memory_changes():
            self.find("remembered result", f"{f.short}: {what} on {owner}"[:120], f.loc(n), f"{f.short}: {what} on {owner}: later calls get the changed one")

    def memory_changes(self):
        """Needs memo_rules() to have run."""
        slots = {mm.attr for mm in self.memos} | {t for (c, t) in self.class_state if t.endswith("_cache")}
        return [e for e in RememberedOwners(slots, self.o).events if not in_debug(e[0])]

    def copies(self):
        """Copying an object together with what it remembers and then changing a field leaves stale results."""
        slots = {mm.attr for mm in self.memos}
        for f in self.funcs:
            for n in own_nodes(f.node):
                for t in stores(n):
                    if t.attr in self.o.fields and isinstance(t.value, ast.Name):
                        for d in reaching(f).get(t.value, ()):
                            if d[0] == "def" and d[3] == "=" and isinstance(d[2], ast.Call) and callee_name(d[2]) in ("copy", "deepcopy", "replace"):
                                self.find("remembered result", f"{f.short}: copy", f.loc(n), f"{f.short} copies an expression with everything remembered on it and then sets {t.attr}: the copy answers with the remembered results of the original")
                    if t.attr in slots and isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr in slots and isinstance(n.value.value, ast.Name) and isinstance(t.value, ast.Name) and n.value.value.id != t.value.id:
                        self.find("remembered result", f"{f.short}: {t.attr} copied", f.loc(n), f"{f.short} copies {ast.unparse(n.value)} to another expression")
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "__dict__" and n.args and "__dict__" in ast.unparse(n.args[0]):
                    self.find("remembered result", f"{f.short}: __dict__ copied", f.loc(n), f"{f.short} copies everything remembered on one expression to another")

    def table_memo(self, f, w, nm):
        """global X: X = V under `if X is None`, V independent of the arguments."""
        pm = module_parents(f.module)
        n = pm.get(w)
        if not isinstance(n, ast.Assign):
            return False
        guard = lambda t: any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(t))
        return self.guarded(f, n, guard, pm) and not (self.deps(f, n.value, ()) | self.controls(f, n, (), set(), pm, guard))

    def run(self):
        self.globals_()
        self.defaults()
        self.global_writes()
        self.memo_rules()
        self.decorators()
        self.handed_out()
        self.copies()
        return self.out


class RememberedOwners(Owners):
    """Owners, with the remembered slots (and what hands them out) as the lists nobody may change."""

    def __init__(self, slots, base):
        self.slots = slots
        super().__init__()

    def sources(self, f, e, depth=0):
        if depth > 8 or e is None:
            return set()
        if isinstance(e, ast.Attribute):
            if e.attr in self.slots:
                if f.name in INIT or any(isinstance(n, ast.Attribute) and n.attr == e.attr and isinstance(n.ctx, ast.Store) for n in own_nodes(f.node)) or self.fills(f, e):
                    return set() if self.fills(f, e) else {("owned", f"the remembered {e.attr}")}
                return {("owned", f"the remembered {e.attr}")}
            for g in self.props(e.attr):
                o = self.returns_owned(g)
                if o:
                    return {("owned", f"{ast.unparse(e)} ({o})")}
            return set()
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            # an element of a remembered tuple or table
            return {s for s in self.sources(f, e.value, depth + 1) if s[0] == "owned"}
        if isinstance(e, ast.Name):
            out = set()
            for d in reaching(f).get(e) or ():
                if d[0] == "def" and d[3] == "unpack" and isinstance(d[1], ast.Assign):
                    out |= {s for s in self.sources(f, d[1].value, depth + 1) if s[0] == "owned"}
            return out | super().sources(f, e, depth)
        if isinstance(e, ast.Tuple):
            out = set()
            for x in e.elts:
                out |= {s for s in self.sources(f, x, depth + 1) if s[0] == "owned"}
            return out
        return super().sources(f, e, depth)

    def props(self, attr):
        if not hasattr(self, "_props"):
            self._props = {}
            for g in self.model.funcs:
                if g.cls is not None and any("property" in d for d in g.dec_names()):
                    self._props.setdefault(g.name, []).append(g)
        return self._props.get(attr, ())

    def fills(self, f, e):
        """X.A[key] = V or X.A.setdefault(..): filling the slot itself."""
        pm = module_parents(f.module)
        p = pm.get(e)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            # through a local name: every change through it is an item assignment or setdefault
            nm = p.targets[0].id
            for n in own_nodes(f.node):
                for b, _, what in changes(n):
                    if isinstance(b, ast.Name) and b.id == nm and what not in ("item assignment", "setdefault()"):
                        return False
            return True
        if isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store):
            return True
        return isinstance(p, ast.Attribute) and p.attr == "setdefault"

    def store(self, f, n, x, what):
        pass

    def aug(self, f, n):
        """`x += y` changes the object only when it is a list: y is one."""
        if container(n.value) or isinstance(n.value, ast.Call) and callee_name(n.value) in CONTAINERS:
            return True
        if not isinstance(n.op, ast.Add):
            return False
        if isinstance(n.value, ast.Name) and any(d[0] == "def" and d[2] is not None and container(d[2]) for d in reaching(f).get(n.value, ())):
            return True
        return any(s[0] == "owned" for s in self.sources(f, n.value))

    def public(self):
        return ()


def slot_alias(f, n):
    """The attribute X.A a local name stands for, if it always does."""
    ds = reaching(f).get(n)
    if ds and len(ds) == 1:
        d = next(iter(ds))
        if d[0] == "def" and d[3] == "=" and isinstance(d[2], ast.Attribute):
            return d[2]
    return None


def names_of(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def assigned(st):
    if isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Name):
                yield t.id, st.value
    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
        yield st.target.id, st.value


def stores(n):
    """Attribute targets of an assignment statement."""
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
            if isinstance(n, ast.AnnAssign) and n.value is None:
                continue
            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else ast.walk(t)):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    yield x


def changes(n):
    """(container expression, node, what) of the container changes a node makes."""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        yield n.func.value, n, f"{n.func.attr}()"
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
        for t in n.targets if not isinstance(n, ast.AugAssign) else [n.target]:
            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                if isinstance(x, ast.Subscript):
                    yield x.value, n, "item assignment"
                elif isinstance(n, ast.AugAssign) and isinstance(x, ast.Attribute) and container(n.value):
                    yield x, n, "augmented assignment"
                elif isinstance(n, ast.AugAssign) and isinstance(x, ast.Name) and container(n.value):
                    yield x, n, "augmented assignment"


def dec_last(f):
    return [d.split(".")[-1] for d in f.dec_names()]


def top_level(stmts):
    for st in stmts:
        yield st
        if isinstance(st, ast.With):
            yield from top_level(st.body)


def under_condition(f, a, b):
    """Does statement a stand under a condition or loop that b does not?"""
    pm = module_parents(f.module)

    def chain(n):
        out = []
        n = pm.get(n)
        while n is not None and n is not f.node:
            if isinstance(n, (ast.If, ast.For, ast.While, ast.Try)):
                out.append(n)
            n = pm.get(n)
        return out

    cb = chain(b)
    return any(x not in cb for x in chain(a))


def ancestors(f):
    g = f.parent
    while g is not None:
        yield g
        g = g.parent


def run(rep):
    h = History()
    for rule, construct, loc, msg in h.run():
        rep.find(rule, construct, loc, msg)
    for k, n in h.counts.items():
        rep.count(k, n)
    rep.count("functions", len(h.funcs))
    for mm in h.memos:
        rep.sample(f"{mm.f.short} remembers {ast.unparse(mm.value)[:60] if mm.value is not None else '?'} in {mm.base.id}.{mm.attr}{' by ' + ast.unparse(mm.key) if mm.key is not None else ''}")
    rep.floor("functions", 50)
    return rep.finish(
        "Every default argument, module-level and class-level value, global statement, store to a class, module or existing expression, change of a shared container, caching decorator and remembered result is enumerated. "
        "A remembered value may depend only on the object it is kept on and on what its key determines (def-use and control dependence); a slot has one writer and is read only where it was filled; what is remembered is changed by nobody; "
        "objects with state are not made once and shared.",
        "no state survives a call except results remembered by everything they depend on")
