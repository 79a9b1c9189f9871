"""Value-graph construction: an abstract interpreter over Python syntax trees.

Each function body is walked once per calling context; control flow joins merge the
abstract state with gamma nodes (no path is enumerated, nothing is executed and no
solver is asked).  Loops over symbolic collections are summarised into comprehension /
accumulator / fold nodes.  Library calls are value-graph operators (vf.lib)."""
import ast
import builtins as _bi
import os
import sys

from .terms import *  # noqa
from . import terms as tm


class Dead(Exception):
    pass


class Unsupported(Exception):
    pass


class AnchorMissing(Exception):
    pass


# ------------------------------------------------------------------ values
class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return "Ref%d" % self.id


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Func:
    def __init__(self, node, frame, mod, name, defaults, kwdefaults, cls=None, gen=False):
        self.node, self.frame, self.mod, self.name = node, frame, mod, name
        self.defaults, self.kwdefaults, self.cls, self.gen = defaults, kwdefaults, cls, gen
        self.qual = name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Cls:
    def __init__(self, name, bases, frame, mod):
        self.name, self.bases, self.frame, self.mod = name, bases, frame, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [x for x in b.mro() if x not in out]
            else:
                out.append(b)
        return out

    def lib_bases(self):
        return [b for b in self.mro() if isinstance(b, Lib)]


class Mod:
    def __init__(self, name, frame):
        self.name, self.frame = name, frame


class Lib:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Lib) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "Lib(%s)" % self.path


class LibM:
    def __init__(self, base, name):
        self.base, self.name = base, name


class VIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Wrap:
    """staticmethod / classmethod / property markers."""

    def __init__(self, kind, func):
        self.kind, self.func = kind, func


class Intr:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


UNDEF = object()
HOST = (int, float, str, bool, type(None), bytes, type(Ellipsis))


def is_host(v):
    return isinstance(v, HOST)


# ------------------------------------------------------------------ heap objects (immutable; replaced on write)
class HFrame:
    __slots__ = ("vars", "parent", "kind", "globals_", "nonlocals")

    def __init__(self, vars, parent, kind, globals_=frozenset(), nonlocals=frozenset()):
        self.vars, self.parent, self.kind = vars, parent, kind
        self.globals_, self.nonlocals = globals_, nonlocals


class HCell:
    __slots__ = ("t", "ident", "data", "base")

    def __init__(self, t, ident=None, data=frozenset(), base=None):
        self.t, self.ident, self.data, self.base = t, ident, data, base


class HConst(HCell):
    """A constant wrapped into a cvxpy expression tree."""
    __slots__ = ()


class HList:
    """parts: ('i', guard, value) | ('s', guard, list-like term). kind: list|set|gen|dict.
    For dicts the item value is Tup((key, value)) and a spread term is a dict term."""
    __slots__ = ("parts", "kind", "ident")

    def __init__(self, parts, kind="list", ident=None):
        self.parts, self.kind, self.ident = tuple(parts), kind, ident


class HObj:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class HLib:
    """Library object with identity and state: cvxpy Problem, Parameter, open files, ..."""
    __slots__ = ("kind", "attrs")

    def __init__(self, kind, attrs):
        self.kind, self.attrs = kind, attrs


class Event:
    __slots__ = ("pc", "kind", "t", "loc")

    def __init__(self, pc, kind, t, loc):
        self.pc, self.kind, self.t, self.loc = pc, kind, t, loc


class State:
    __slots__ = ("heap", "pc", "events", "solves")

    def __init__(self, heap, pc, events, solves):
        self.heap, self.pc, self.events, self.solves = heap, pc, events, solves

    def fork(self, c):
        return State(dict(self.heap), b_and(self.pc, c), self.events, self.solves)


class Ctx:
    """Collects abrupt completions of a function or loop."""

    def __init__(self):
        self.items = []  # (pc, value, state)


class TryCtx:
    def __init__(self, types):
        self.types = types  # list of lists of type values
        self.caught = []  # (handler index, pc, state, exc value)


BUILTIN_EXC = {
    n: [c.__name__ for c in getattr(_bi, n).__mro__ if c is not object]
    for n in dir(_bi)
    if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)
}
LIB_EXC = {
    "numpy.linalg.LinAlgError": ["numpy.linalg.LinAlgError", "ValueError", "Exception", "BaseException"],
    "cvxpy.DCPError": ["cvxpy.DCPError", "Exception", "BaseException"],
    "cvxpy.SolverError": ["cvxpy.SolverError", "Exception", "BaseException"],
    "cvxpy.error.DCPError": ["cvxpy.DCPError", "Exception", "BaseException"],
    "cvxpy.error.SolverError": ["cvxpy.SolverError", "Exception", "BaseException"],
}


class Interp:
    def __init__(self, roots):
        # roots: {package name: directory}
        self.roots = roots
        self.modules = {}
        self.sources = {}
        self.nid = 0
        self.st = State({}, TRUE, (), ())
        self.fn_stack = []
        self.handlers = []
        self.quiet = []
        self.sinks = []
        self.partial = set()
        self.loc = ("?", 0, "?")
        self.origin = {}
        self.depth = 0
        self.calls_seen = set()
        self.call_sites = 0
        self.unknowns = []
        self.probing = 0
        self.mark_origin = True
        self.rec_opaque = set()
        from . import lib

        self.lib = lib
        self.builtins = lib.make_builtins(self)

    # -------------------------------------------------------------- heap
    def alloc(self, obj):
        self.nid += 1
        self.st.heap[self.nid] = obj
        return Ref(self.nid)

    def get(self, ref):
        return self.st.heap[ref.id]

    def put(self, ref, obj):
        self.st.heap[ref.id] = obj

    def event(self, kind, t=NONE):
        if not isinstance(t, T):
            t = self.term(t)
        self.st.events = self.st.events + (Event(self.st.pc, kind, t, self.loc),)

    def unknown(self, why):
        self.unknowns.append((why, self.loc))
        return tm._node("unknown", (), "%s@%s:%s" % (why, self.loc[0], self.loc[1]), ("?", None))

    # -------------------------------------------------------------- reification
    def term(self, v, depth=0):
        if isinstance(v, T):
            return v
        if is_host(v):
            return const(v)
        if isinstance(v, Ref):
            h = self.st.heap.get(v.id)
            if isinstance(h, HCell):
                return h.t
            if depth > 12:
                return app("deep")
            if isinstance(h, HList):
                return self.list_term(h, depth)
            if isinstance(h, HObj):
                return app("objv", *[x for k in sorted(h.attrs) for x in (self.term(h.attrs[k], depth + 1),)],
                           attr=(h.cls.name,) + tuple(sorted(h.attrs)), ty=("obj", None))
            if isinstance(h, HLib):
                if h.kind == "param":
                    return h.attrs["sym"]
                return app("libobj", *[self.term(h.attrs[k], depth + 1) for k in sorted(h.attrs) if k != "sym"],
                           attr=(h.kind,) + tuple(k for k in sorted(h.attrs) if k != "sym"), ty=("obj", None))
            return self.unknown("reify %r" % (h,))
        if isinstance(v, Tup):
            return app("tuple", *[self.term(x, depth + 1) for x in v.items], ty=("tuple", None))
        if isinstance(v, VIte):
            return ite(v.c, self.term(v.a, depth), self.term(v.b, depth))
        if isinstance(v, SliceV):
            return app("slice", self.term(v.lo), self.term(v.hi), self.term(v.step), ty=("slice", None))
        if isinstance(v, Lib):
            return app("lib", attr=v.path, ty=("fn", None))
        if isinstance(v, LibM):
            return app("method", self.term(v.base, depth + 1), attr=v.name, ty=("fn", None))
        if isinstance(v, (Func, Bound)):
            return self.fn_term(v, depth)
        if isinstance(v, Cls):
            return app("class", attr=v.name, ty=("fn", None))
        if isinstance(v, Mod):
            return app("module", attr=v.name)
        if isinstance(v, Intr):
            return app("lib", attr=v.name, ty=("fn", None))
        return self.unknown("reify %s" % type(v).__name__)

    def fn_term(self, v, depth):
        """Functions are compared by body: apply to fresh arguments and close."""
        f = v.func if isinstance(v, Bound) else v
        if not isinstance(f, Func) or depth > 6:
            return self.unknown("function value")
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if isinstance(v, Bound):
            names = names[1:]
        if a.vararg or a.kwarg or a.kwonlyargs:
            return self.unknown("function value")
        vs = [fresh("?", None, "l") for _ in names]
        save = self.st, len(self.sinks)
        self.st = self.st.fork(TRUE)
        self.probing += 1
        h = self.handlers
        self.handlers = []
        try:
            try:
                r = self.call(v, list(vs), {})
                rt = self.term(r, depth + 1)
            except Dead:
                rt = app("never")
        finally:
            self.st = save[0]
            del self.sinks[save[1]:]
            self.probing -= 1
            self.handlers = h
        if not vs:
            return app("lam0", rt, ty=("fn", None))
        return app("lam", bind(rt, *vs), ty=("fn", None))

    def part_term(self, p, kind, depth):
        if p[0] == "i":
            t = self.term(p[2], depth + 1) if kind != "dict" else app(
                "pair", self.term(p[2].items[0], depth + 1), self.term(p[2].items[1], depth + 1))
            return t if p[1] is TRUE else app("guarded", p[1], t)
        t = p[2]
        t = t if t.op == "seg" else app("spread", t)
        return t if p[1] is TRUE else app("guarded", p[1], t)

    def list_term(self, h, depth=0):
        ps = [self.part_term(p, h.kind, depth) for p in h.parts]
        k = {"list": "list", "gen": "list", "set": "set", "dict": "dict"}[h.kind]
        return mk_list(ps, k)

    def from_list_term(self, t, kind="list", ident=None):
        """Heap list for a list-like term."""
        if t.op in ("list", "dict", "set"):
            parts = []
            todo = [(TRUE, a) for a in reversed(t.args)]
            while todo:
                g, a = todo.pop()
                if a.op == "guarded":
                    g, a = b_and(g, a.args[0]), a.args[1]
                    todo.append((g, a))
                elif a.op == "ite" and is_parts(a):
                    c = batom(a.args[0])
                    todo.append((b_and(g, b_not(c)), a.args[2]))
                    todo.append((b_and(g, c), a.args[1]))
                elif a.op == "seg":
                    parts.append(("s", g, a))
                elif a.op == "spread":
                    parts.append(("s", g, a.args[0]))
                elif a.op == "pair" and t.op == "dict":
                    parts.append(("i", g, Tup((self.unterm(a.args[0]), self.unterm(a.args[1])))))
                else:
                    parts.append(("i", g, self.unterm(a)))
            return HList(parts, "dict" if t.op == "dict" else kind, ident)
        return HList([("s", TRUE, t)], kind, ident)

    def unterm(self, t):
        if t.op == "c" and t.attr[0] not in ("nan", "inf"):
            return t.attr[1]
        if t.op == "tuple":
            return Tup([self.unterm(x) for x in t.args])
        if is_num(t) and num_val(t).denominator == 1:
            return int(num_val(t))
        if t.op in ("list", "dict", "set"):
            return self.alloc(self.from_list_term(t))
        return t

    def host(self, v):
        """Host constant of a value, or raise ValueError."""
        if is_host(v):
            return v
        if isinstance(v, (T, Ref)):
            t = self.term(v)
            if is_const(t):
                return py_of(t)
        raise ValueError

    def is_const_value(self, v):
        try:
            self.host(v)
            return True
        except ValueError:
            return False

    # -------------------------------------------------------------- binding (identity for mutable results)
    CELLK = {"arr", "ser", "df", "?", "cvx", "con", "idx", "obj"}

    def own(self, v):
        """Give a freshly computed mutable value an identity."""
        if isinstance(v, T):
            if v.op in ("list", "dict", "set") or v.ty[0] in ("list", "dict", "set"):
                if v.op == "list" or v.op == "dict" or v.op == "set":
                    return self.alloc(self.from_list_term(v))
                if v.ty[0] == "dict":
                    return self.alloc(HList([("s", TRUE, v)], "dict"))
                if v.ty[0] == "set":
                    return self.alloc(HList([("s", TRUE, v)], "set"))
                return self.alloc(HList([("s", TRUE, v)], "list"))
            if v.op == "tuple":
                return Tup([self.own(x) for x in v.args])
            if v.ty[0] in self.CELLK and v.op not in ("var", "par", "c"):
                return self.alloc(HCell(v))
        return v

    def kind(self, v):
        if isinstance(v, T):
            return v.ty[0]
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, (int, float)):
            return "num"
        if isinstance(v, str):
            return "str"
        if v is None:
            return "none"
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, HCell):
                return h.t.ty[0]
            if isinstance(h, HList):
                return h.kind
            if isinstance(h, HObj):
                return "obj"
            return "libobj"
        if isinstance(v, VIte):
            a, b = self.kind(v.a), self.kind(v.b)
            return a if a == b else "?"
        return "fn"

    # -------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b or a is UNDEF or b is UNDEF:
            return b if a is UNDEF else a
        if is_host(a) and is_host(b) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if (isinstance(a, T) or is_host(a)) and (isinstance(b, T) or is_host(b)):
            return ite(c, self.term(a), self.term(b))
        if isinstance(a, Lib) and a == b:
            return a
        if isinstance(a, (Func, Cls, Mod)) and a is b:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self_ == b.self_:
            return a
        return VIte(c, a, b)

    def merge_parts(self, c, pa, pb):
        n = 0
        while n < len(pa) and n < len(pb) and self.same_part(pa[n], pb[n]):
            n += 1
        out = list(pa[:n])
        ra, rb = pa[n:], pb[n:]
        # common suffix
        suf = []
        while ra and rb and self.same_part(ra[-1], rb[-1]):
            suf.insert(0, ra[-1])
            ra, rb = ra[:-1], rb[:-1]
        if len(ra) == len(rb) and all(x[0] == "i" and y[0] == "i" and x[1] is TRUE and y[1] is TRUE for x, y in zip(ra, rb)):
            out += [("i", TRUE, self.merge_val(c, x[2], y[2])) for x, y in zip(ra, rb)]
        else:
            out += [(p[0], b_and(c, p[1]), p[2]) for p in ra]
            out += [(p[0], b_and(b_not(c), p[1]), p[2]) for p in rb]
        return out + suf

    def same_part(self, p, q):
        if p is q:
            return True
        if p[0] != q[0] or p[1] is not q[1]:
            return False
        x, y = p[2], q[2]
        if x is y or (isinstance(x, Ref) and x == y):
            return True
        if is_host(x) and is_host(y) and type(x) is type(y) and x == y:
            return True
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return all(self.same_part(("i", TRUE, u), ("i", TRUE, w)) for u, w in zip(x.items, y.items))
        return False

    def merge_obj(self, c, a, b, s1, s2):
        if a is b:
            return a
        if isinstance(a, HFrame):
            vs = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                x, y = a.vars.get(k, UNDEF), b.vars.get(k, UNDEF)
                if x is UNDEF or y is UNDEF:
                    self.partial.add(k)          # bound on one path only
                vs[k] = self.merge_val(c, x, y)
            return HFrame(vs, a.parent, a.kind, a.globals_, a.nonlocals)
        if isinstance(a, HCell):
            return HCell(ite(c, a.t, b.t), a.ident, a.data | b.data, a.base)
        if isinstance(a, HList):
            if a.kind == "dict":
                if len(a.parts) == len(b.parts) and all(
                    p[0] == "i" and q[0] == "i" and self.same_part(("i", TRUE, p[2].items[0]), ("i", TRUE, q[2].items[0]))
                    and p[1] is TRUE and q[1] is TRUE for p, q in zip(a.parts, b.parts)):
                    return HList([("i", TRUE, Tup((p[2].items[0], self.merge_val(c, p[2].items[1], q[2].items[1]))))
                                  for p, q in zip(a.parts, b.parts)], a.kind, a.ident)
            return HList(self.merge_parts(c, a.parts, b.parts), a.kind, a.ident)
        if isinstance(a, (HObj, HLib)):
            at = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                at[k] = self.merge_val(c, a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF))
            return HObj(a.cls, at) if isinstance(a, HObj) else HLib(a.kind, at)
        return a

    def merge(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        heap = dict(s2.heap)
        for k, a in s1.heap.items():
            b = s2.heap.get(k)
            if b is None:
                heap[k] = a
            elif a is not b:
                heap[k] = self.merge_obj(c, a, b, s1, s2)
        ev = self._merge_seq(s1.events, s2.events)
        so = self._merge_seq(s1.solves, s2.solves)
        return State(heap, b_or(s1.pc, s2.pc), ev, so)

    @staticmethod
    def _merge_seq(a, b):
        n = 0
        m = min(len(a), len(b))
        while n < m and a[n] is b[n]:
            n += 1
        return a[:n] + a[n:] + b[n:]

    def merge_many(self, items, pc0):
        """items: (pc, value, state) disjoint; returns (value, state)."""
        if len(items) > 1:
            pc0 = b_or(*[it[0] for it in items])      # anywhere else nothing continues
        v, st = items[-1][1], items[-1][2]
        for pc, val, s in reversed(items[:-1]):
            c = constrain(pc, pc0)
            v = self.merge_val(c, val, v)
            st = self.merge(c, s, st)
        return v, st

    def branch(self, c, f, g):
        c = constrain(c, self.st.pc)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        st0 = self.st
        res = []
        for cond, fn in ((c, f), (b_not(c), g)):
            self.st = st0.fork(cond)
            try:
                v = fn()
                res.append((v, self.st))
            except Dead:
                res.append((UNDEF, None))
        (v1, s1), (v2, s2) = res
        if s1 is None and s2 is None:
            self.st = st0
            raise Dead()
        self.st = self.merge(c, s1, s2)
        return self.merge_val(c, v1, v2)

    def assume(self, c):
        pc = b_and(self.st.pc, c)
        if pc is FALSE:
            raise Dead()
        self.st.pc = pc

    # -------------------------------------------------------------- exceptions
    def exc_names(self, e):
        """Class-name chain of an exception class value."""
        if isinstance(e, Cls):
            out = []
            for b in e.mro():
                out += [b.name] if isinstance(b, Cls) else self.exc_names(b)
            return out
        if isinstance(e, Lib):
            p = e.path
            if p in LIB_EXC:
                return LIB_EXC[p]
            n = p.split(".")[-1]
            if n in BUILTIN_EXC:
                return BUILTIN_EXC[n]
            return [p, "Exception", "BaseException"]
        return ["?", "Exception", "BaseException"]

    def matches(self, names, types):
        for t in types:
            tn = self.exc_names(t)[0]
            if tn in names or names == ["*"]:
                return True
        return False

    def raise_exc(self, cls, exc):
        """Unconditional raise in the current state."""
        names = self.exc_names(cls)
        for k in range(len(self.handlers) - 1, -1, -1):
            h = self.handlers[k]
            for i, types in enumerate(h.types):
                if self.matches(names, types):
                    h.caught.append((i, self.st.pc, self.st, exc))
                    raise Dead()
        self.sinks.append((self.st.pc, names[0], self.loc, self.st))
        raise Dead()

    def may_raise(self, kinds, key):
        """An operation whose failure is only observable inside a handler."""
        if not self.handlers:
            return
        for kind in kinds:
            if kind == "*":
                names = ["*"]
            elif kind in LIB_EXC:
                names = LIB_EXC[kind]
            else:
                names = BUILTIN_EXC.get(kind, [kind, "Exception", "BaseException"])
            for k in range(len(self.handlers) - 1, -1, -1):
                h = self.handlers[k]
                hit = None
                for i, types in enumerate(h.types):
                    if self.matches(names, types):
                        hit = i
                        break
                if hit is not None:
                    at = batom(tm._node("exc", (key,), kind, ("bool", 0)))
                    c = constrain(at, self.st.pc)
                    if c is not FALSE:
                        s = self.st.fork(c)
                        ex = tm._node("excv", (key,), kind, ("obj", None))
                        h.caught.append((hit, s.pc, s, ex))
                        self.st.pc = b_and(self.st.pc, b_not(c))
                        if self.st.pc is FALSE:
                            raise Dead()
                    break

    def raise_builtin(self, name, cond=TRUE):
        """Conditional raise of a builtin exception."""
        c = constrain(cond, self.st.pc)
        if c is FALSE:
            return

        def f():
            self.raise_exc(Lib("builtins." + name), tm._node("excv", (), name, ("obj", None)))

        self.branch(c, f, lambda: None)

    # -------------------------------------------------------------- modules
    def load(self, name):
        """Repo / spec module by dotted name, or None when it is not ours."""
        if name in self.modules:
            return self.modules[name]
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        rel = name.split(".")[1:]
        base = os.path.join(self.roots[top], *rel)
        is_pkg = os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py"))
        path = os.path.join(base, "__init__.py") if is_pkg else base + ".py"
        if not os.path.exists(path):
            return None
        if rel:
            self.load(".".join(name.split(".")[:-1]))
            if name in self.modules:
                return self.modules[name]
        with open(path) as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        self.sources[name] = path
        ref = self.alloc(HFrame({"__name__": name, "__file__": path}, None, "module"))
        mod = Mod(name, ref)
        mod.pkg = name if is_pkg else ".".join(name.split(".")[:-1])
        self.modules[name] = mod
        save = self.fn_stack, self.handlers, self.loc
        self.fn_stack, self.handlers = [Ctx()], []
        self.cur_mod_push(mod, ref)
        try:
            self.exec_block(tree.body)
        except Dead:
            raise AnchorMissing("module %s does not import" % name)
        finally:
            self.cur_pop()
            self.fn_stack, self.handlers, self.loc = save
        if rel:
            parent = self.modules.get(".".join(name.split(".")[:-1]))
            if parent:
                self.set_var(parent.frame, rel[-1], mod)
        return mod

    _cur = None

    def cur_mod_push(self, mod, frame, fname="<module>", cls=None):
        self._cur = (mod, frame, fname, cls, self._cur)

    def cur_pop(self):
        self._cur = self._cur[4]

    @property
    def mod(self):
        return self._cur[0]

    @property
    def frame(self):
        return self._cur[1]

    def set_var(self, frame, name, v):
        f = self.get(frame)
        nv = dict(f.vars)
        nv[name] = v
        self.put(frame, HFrame(nv, f.parent, f.kind, f.globals_, f.nonlocals))

    def assign_name(self, name, v):
        v = self.own(v)
        f = self.get(self.frame)
        if name in f.globals_:
            self.set_var(self.mod.frame, name, v)
        elif name in f.nonlocals:
            p = f.parent
            while p is not None:
                pf = self.get(p)
                if name in pf.vars:
                    self.set_var(p, name, v)
                    return
                p = pf.parent
        else:
            self.set_var(self.frame, name, v)

    def lookup(self, name):
        p = self.frame
        first = True
        while p is not None:
            f = self.get(p)
            if (first or f.kind != "class") and name in f.vars and not (first and name in f.globals_):
                v = f.vars[name]
                if v is UNDEF:
                    return self.unknown("unbound " + name)
                return v
            first = False
            p = f.parent
        g = self.get(self.mod.frame)
        if name in g.vars:
            return g.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in BUILTIN_EXC:
            return Lib("builtins." + name)
        self.raise_exc(Lib("builtins.NameError"), NONE)

    # -------------------------------------------------------------- statements
    def exec_block(self, body):
        for s in body:
            self.exec(s)

    def exec(self, s):
        self.loc = (self.loc_file(), getattr(s, "lineno", 0), self._cur[2])
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unknown("statement " + type(s).__name__)
            self.havoc_stmt(s)
            return
        m(s)

    def loc_file(self):
        return self.sources.get(self.mod.name, self.mod.name) if self._cur else "?"

    def havoc_stmt(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.assign_name(n.id, self.unknown("unsupported statement"))
        self.event("unsupported", app("stmt", attr=type(s).__name__))

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        f = self.get(self.frame)
        self.put(self.frame, HFrame(f.vars, f.parent, f.kind, f.globals_ | set(s.names), f.nonlocals))

    def x_Nonlocal(self, s):
        f = self.get(self.frame)
        self.put(self.frame, HFrame(f.vars, f.parent, f.kind, f.globals_, f.nonlocals | set(s.names)))

    def x_Expr(self, s):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.eval(s.value)
            return
        self.eval(s.value)

    def x_Assign(self, s):
        v = self.eval(s.value)
        if len(s.targets) > 1:
            v = self.own(v)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.assign_name(t.id, self.inplace(op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            cur = self.getattr(base, t.attr)
            self.setattr(base, t.attr, self.inplace(op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.eval_index(t.slice)
            cur = self.getitem(base, idx)
            nv = self.binop(op, cur, self.eval(s.value))
            self.setitem(base, idx, nv)
        else:
            self.unknown("augassign")

    def inplace(self, op, cur, val):
        if isinstance(cur, VIte):
            return self.branch(cur.c, lambda: self.inplace(op, cur.a, val), lambda: self.inplace(op, cur.b, val))
        if isinstance(cur, Ref):
            h = self.get(cur)
            if isinstance(h, HList) and h.kind == "list" and op == "Add":
                self.lib.list_extend(self, cur, val)
                return cur
            if isinstance(h, HList) and h.kind in ("dict", "set") and op == "BitOr":
                self.lib.call_method(self, cur, "update", [val], {})
                return cur
            if isinstance(h, HCell) and h.t.ty[0] in ("arr", "ser", "df", "?"):
                nt = self.term(self.binop(op, cur, val))
                if h.t.ty[0] == "?" and not h.data:
                    return nt
                self.mutate_cell(cur, nt, "data")
                return cur
        return self.binop(op, cur, val)

    def mutate_cell(self, ref, nt, what):
        h = self.get(ref)
        if what == "data":
            for r in sorted(h.data):
                self.event("mutate", app("input", attr=r))
        elif h.ident:
            self.event("mutate", app("input", attr=h.ident))
        self.put(ref, HCell(nt, h.ident, h.data, h.base))
        if what == "data" and h.base is not None:
            b = self.st.heap.get(h.base)
            if isinstance(b, HCell):
                self.put(Ref(h.base), HCell(app("viewwrite", b.t, nt, ty=b.t.ty), b.ident, b.data, b.base))

    def mutate_list(self, ref, parts):
        h = self.get(ref)
        if h.ident:
            self.event("mutate", app("input", attr=h.ident))
        self.put(ref, HList(parts, h.kind, h.ident))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(t.elts), star)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            self.setitem(base, self.eval_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unknown("assign target")

    def unpack(self, v, n, star=()):
        if isinstance(v, VIte):
            a, b = self.unpack(v.a, n, star), self.unpack(v.b, n, star)
            return [self.merge_val(v.c, x, y) for x, y in zip(a, b)]
        items = None
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, HList) and h.kind != "dict" and all(p[0] == "i" and p[1] is TRUE for p in h.parts):
                items = [p[2] for p in h.parts]
        if items is not None:
            if star:
                k = star[0]
                m = len(items) - (n - 1)
                items = items[:k] + [self.alloc(HList([("i", TRUE, x) for x in items[k:k + m]]))] + items[k + m:]
            if len(items) == n:
                return items
            self.raise_exc(Lib("builtins.ValueError"), NONE)
        t = self.term(v)
        if t.op == "ite":
            a, b = self.unpack(t.args[1], n, star), self.unpack(t.args[2], n, star)
            return [self.merge_val(batom(t.args[0]), x, y) for x, y in zip(a, b)]
        return [self.lib.unpack_item(self, t, k, n) for k in range(n)]

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = self.get(self.frame)
                nv = dict(f.vars)
                nv.pop(t.id, None)
                self.put(self.frame, HFrame(nv, f.parent, f.kind, f.globals_, f.nonlocals))
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.eval(t.value), self.eval_index(t.slice))
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                if isinstance(b, Ref) and isinstance(self.get(b), HObj):
                    o = self.get(b)
                    at = dict(o.attrs)
                    at.pop(t.attr, None)
                    self.put(b, HObj(o.cls, at))

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        v = self.own(v)
        self.fn_stack[-1].items.append((self.st.pc, v, self.st))
        raise Dead()

    def x_If(self, s):
        c = self.truth(self.eval(s.test))

        def th():
            self.exec_block(s.body)

        def el():
            self.exec_block(s.orelse)

        self.branch(c, th, el)

    def x_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, "_handling", None)
            if cur:
                self.reraise(cur[-1])
            self.raise_exc(Lib("builtins.RuntimeError"), NONE)
        v = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)
        self.raise_value(v)

    def raise_value(self, v):
        if isinstance(v, VIte):
            self.branch(v.c, lambda: self.raise_value(v.a), lambda: self.raise_value(v.b))
            raise Dead()
        if isinstance(v, (Cls, Lib)):
            self.raise_exc(v, v)
        if isinstance(v, Ref) and isinstance(self.get(v), HObj):
            self.raise_exc(self.get(v).cls, v)
        t = self.term(v)
        if t.op == "ite":
            self.branch(batom(t.args[0]), lambda: self.raise_value(t.args[1]), lambda: self.raise_value(t.args[2]))
            raise Dead()
        if t.op == "excv":
            self.reraise(t)
        self.raise_exc(Lib("builtins.Exception"), v)

    def reraise(self, v):
        if isinstance(v, T) and v.op == "excv":
            k = v.attr
            if k == "*":
                # opaque exception escapes
                self.sinks.append((self.st.pc, "*", self.loc, self.st))
                raise Dead()
            if k in LIB_EXC:
                self.raise_exc(Lib(k), v)
            self.raise_exc(Lib("builtins." + k), v)
        self.raise_value(v)

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))

        def bad():
            if s.msg is not None:
                self.eval(s.msg)
            self.raise_exc(Lib("builtins.AssertionError"), tm._node("excv", (), "AssertionError", ("obj", None)))

        self.branch(c, lambda: None, bad)

    def x_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            if isinstance(dv, Lib) and dv.path in ("builtins.staticmethod", "builtins.classmethod", "builtins.property"):
                f = Wrap(dv.path.split(".")[1], f)
            elif isinstance(dv, LibM) and dv.name in ("setter", "getter", "deleter"):
                self.unknown("property setter")
            else:
                f = self.call(dv, [f], {})
        self.set_var(self.frame, s.name, f) if s.name not in self.get(self.frame).globals_ else self.assign_name(s.name, f)

    def make_func(self, node, name):
        a = node.args
        defaults = [self.own(self.eval(d)) for d in a.defaults]
        kwd = {k.arg: (self.own(self.eval(d)) if d is not None else UNDEF) for k, d in zip(a.kwonlyargs, a.kw_defaults)}
        gen = False
        if not isinstance(node, ast.Lambda):
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    gen = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
        fr = self.get(self.frame)
        parent = self.frame if fr.kind != "module" else None
        cls = self._cur[3] if fr.kind == "class" else None
        if fr.kind == "class":
            parent = fr.parent
        f = Func(node, parent, self.mod, name, defaults, kwd, cls, gen)
        f.in_cls = self._cur[3]
        f.qual = (self._cur[2] + "." if self._cur[2] != "<module>" else "") + name
        return f

    def x_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        bases = [b for b in bases if isinstance(b, (Cls, Lib))]
        fr = self.alloc(HFrame({}, self.frame if self.get(self.frame).kind != "module" else None, "class"))
        c = Cls(s.name, bases, fr, self.mod)
        self.cur_mod_push(self.mod, fr, s.name, c)
        try:
            self.exec_block(s.body)
        finally:
            self.cur_pop()
        v = c
        for d in reversed(s.decorator_list):
            self.unknown("class decorator")
        self.set_var(self.frame, s.name, v)

    def x_Import(self, s):
        for a in s.names:
            m = self.load(a.name)
            if m is None:
                top = a.name if a.asname else a.name.split(".")[0]
                self.import_lib(a.name)
                self.set_var(self.frame, a.asname or top, Lib(top))
            else:
                self.set_var(self.frame, a.asname or a.name.split(".")[0],
                             m if a.asname else self.load(a.name.split(".")[0]))

    def import_lib(self, name):
        self.event("import", app("lib", attr=name))
        self.may_raise(["ModuleNotFoundError"], app("lib", attr=name))

    def x_ImportFrom(self, s):
        name = s.module or ""
        if s.level:
            base = self.mod.pkg.split(".")
            base = base[: len(base) - (s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        m = self.load(name)
        for a in s.names:
            if m is None:
                self.import_lib(name)
                if a.name == "*":
                    self.unknown("star import")
                    continue
                self.set_var(self.frame, a.asname or a.name, self.lib.canon(Lib(name + "." + a.name)))
            else:
                vs = self.get(m.frame).vars
                if a.name in vs:
                    v = vs[a.name]
                else:
                    v = self.load(name + "." + a.name)
                    if v is None:
                        raise AnchorMissing("%s has no %s" % (name, a.name))
                self.set_var(self.frame, a.asname or a.name, v)

    def x_With(self, s):
        depth = len(self.quiet)
        try:
            for it in s.items:
                v = self.eval(it.context_expr)
                if isinstance(v, T) and v.op == "lib" and v.attr == "warnings.catch_warnings":
                    self.quiet.append([])
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
            self.exec_block(s.body)
        finally:
            del self.quiet[depth:]

    def x_Try(self, s):
        types = []
        for h in s.handlers:
            if h.type is None:
                types.append([Lib("builtins.BaseException")])
            else:
                tv = self.eval(h.type)
                types.append(list(tv.items) if isinstance(tv, Tup) else [tv])
        ctx = TryCtx(types)
        self.handlers.append(ctx)
        nf = len(self.fn_stack[-1].items)
        pc0 = self.st.pc
        done = []
        nctx = len(self.handlers)
        try:
            self.exec_block(s.body)
            alive = True
        except Dead:
            alive = False
        finally:
            del self.handlers[nctx - 1:]
        if alive:
            try:
                self.exec_block(s.orelse)
                done.append((self.st.pc, None, self.st))
            except Dead:
                pass
        by = {}
        for i, pc, st, exc in ctx.caught:
            by.setdefault(i, []).append((pc, exc, st))
        for i in sorted(by):
            exc, st = self.merge_many(by[i], pc0)
            self.st = st
            h = s.handlers[i]
            if h.name:
                self.set_var(self.frame, h.name, exc)
            if not hasattr(self, "_handling"):
                self._handling = []
            self._handling.append(exc)
            try:
                self.exec_block(h.body)
                done.append((self.st.pc, None, self.st))
            except Dead:
                pass
            finally:
                self._handling.pop()
        if s.finalbody:
            if not done:
                # all paths abrupt: run for effects on returned states
                for k in range(nf, len(self.fn_stack[-1].items)):
                    pc, v, st = self.fn_stack[-1].items[k]
                    self.st = st
                    self.exec_block(s.finalbody)
                    self.fn_stack[-1].items[k] = (pc, v, self.st)
                raise Dead()
            for k in range(nf, len(self.fn_stack[-1].items)):
                pc, v, st = self.fn_stack[-1].items[k]
                self.st = st
                self.exec_block(s.finalbody)
                self.fn_stack[-1].items[k] = (pc, v, self.st)
        if not done:
            raise Dead()
        _, self.st = self.merge_many(done, pc0)
        if s.finalbody:
            self.exec_block(s.finalbody)

    def x_Break(self, s):
        self.loops[-1][0].append((self.st.pc, None, self.st))
        raise Dead()

    def x_Continue(self, s):
        self.loops[-1][1].append((self.st.pc, None, self.st))
        raise Dead()

    loops = []

    # -------------------------------------------------------------- loops
    def run_body(self, body):
        """Run a loop body; returns (normal items, break items) as (pc, None, state)."""
        brk, cont = [], []
        self.loops = self.loops + [(brk, cont)]
        pc0 = self.st.pc
        try:
            try:
                self.exec_block(body)
                cont.append((self.st.pc, None, self.st))
            except Dead:
                pass
        finally:
            self.loops = self.loops[:-1]
        if cont:
            _, st = self.merge_many(cont, pc0)
        else:
            st = None
        return st, brk

    def x_For(self, s):
        it = self.eval(s.iter)
        chunks = self.lib.chunks(self, it)
        breaks = []
        pc0 = self.st.pc
        alive = True
        for ch in chunks:
            if ch[0] == "item":
                g, v = ch[1], ch[2]

                def one():
                    self.assign(s.target, v)
                    st, brk = self.run_body(s.body)
                    breaks.extend(brk)
                    if st is None:
                        raise Dead()
                    self.st = st

                try:
                    self.branch(g, one, lambda: None)
                except Dead:
                    alive = False
                    break
            else:
                _, n, elem = ch
                try:
                    self.sym_loop(n, elem, s)
                except Dead:
                    alive = False
                    break
        done = []
        if alive:
            try:
                self.exec_block(s.orelse)
                done.append((self.st.pc, None, self.st))
            except Dead:
                pass
        done += breaks
        if not done:
            raise Dead()
        _, self.st = self.merge_many(done, pc0)

    def x_While(self, s):
        # unroll while the test is decided
        pc0 = self.st.pc
        breaks = []
        k = 0
        alive = True
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)
        while k < 24 and not always:
            save = self.st
            self.st = self.st.fork(TRUE)
            c = constrain(self.truth(self.eval(s.test)), self.st.pc)
            if c is FALSE:
                break
            if c is not TRUE:
                self.st = save
                break
            st, brk = self.run_body(s.body)
            breaks.extend(brk)
            k += 1
            if st is None:
                alive = False
                break
            self.st = st
        else:
            c = None
        if alive and c is not FALSE:
            try:
                self.sym_while(s)
            except Dead:
                alive = False
        done = []
        if alive:
            try:
                self.exec_block(s.orelse)
                done.append((self.st.pc, None, self.st))
            except Dead:
                pass
        done += breaks
        if not done:
            raise Dead()
        _, self.st = self.merge_many(done, pc0)

    # ---- slots: addressable pieces of state
    def slot_get(self, st, slot):
        h = st.heap.get(slot[0])
        if h is None:
            return UNDEF
        if isinstance(h, HFrame):
            return h.vars.get(slot[1], UNDEF)
        if isinstance(h, (HObj, HLib)):
            return h.attrs.get(slot[1], UNDEF)
        if isinstance(h, HCell):
            return h.t
        if isinstance(h, HList):
            return h
        return UNDEF

    def slot_put(self, st, slot, v):
        h = st.heap[slot[0]]
        if isinstance(h, HFrame):
            nv = dict(h.vars)
            nv[slot[1]] = v
            st.heap[slot[0]] = HFrame(nv, h.parent, h.kind, h.globals_, h.nonlocals)
        elif isinstance(h, HObj):
            at = dict(h.attrs)
            at[slot[1]] = v
            st.heap[slot[0]] = HObj(h.cls, at)
        elif isinstance(h, HLib):
            at = dict(h.attrs)
            at[slot[1]] = v
            st.heap[slot[0]] = HLib(h.kind, at)
        elif isinstance(h, HCell):
            st.heap[slot[0]] = HCell(v, h.ident, h.data, h.base)
        elif isinstance(h, HList):
            st.heap[slot[0]] = v

    def changed_slots(self, pre, post, limit):
        out = []
        for i in sorted(pre.heap):
            if i > limit:
                continue
            a, b = pre.heap[i], post.heap.get(i)
            if a is b or b is None:
                continue
            if isinstance(a, HFrame):
                for k in b.vars:
                    if not self.same_val(a.vars.get(k, UNDEF), b.vars[k]):
                        out.append((i, k))
            elif isinstance(a, (HObj, HLib)):
                for k in b.attrs:
                    if not self.same_val(a.attrs.get(k, UNDEF), b.attrs[k]):
                        out.append((i, k))
            elif isinstance(a, HCell):
                if a.t is not b.t:
                    out.append((i, None))
            elif isinstance(a, HList):
                if len(a.parts) != len(b.parts) or not all(self.same_part(p, q) for p, q in zip(a.parts, b.parts)):
                    out.append((i, None))
        return out

    def same_val(self, a, b):
        if a is b:
            return True
        if a is UNDEF or b is UNDEF:
            return False
        return self.same_part(("i", TRUE, a), ("i", TRUE, b))

    def mu_for(self, v, slot, post):
        """Placeholder value for a loop-carried slot, with its term and reader."""
        if isinstance(v, HList):
            k = {"gen": "list"}.get(v.kind, v.kind)
            t = fresh(k, None, "m")
            return t, HList([("s", TRUE, t)], v.kind, v.ident)
        if isinstance(v, T):  # cell content
            t = fresh(v.ty[0], v.ty[1], "m")
            return t, t
        return None

    def sym_loop(self, n, elem, s):
        i = fresh("num", 0, "i")
        pre = self.st
        gbox, vbox = [TRUE], [None]

        def start(st):
            self.st = st
            st.pc = b_and(st.pc, batom(tm._node("indom", (i, n), None, ("bool", 0))))
            g, v = elem(i)
            gbox[0] = g
            if g is TRUE:
                self.assign(s.target, v)
            vbox[0] = v

        def body():
            if gbox[0] is TRUE:
                return self.run_body(s.body)
            # element present only under a guard: the body runs under it
            c = constrain(gbox[0], self.st.pc)
            st0 = self.st
            self.st = st0.fork(c)
            self.assign(s.target, vbox[0])
            end, brk = self.run_body(s.body)
            skip = st0.fork(b_not(c))
            return (skip if end is None else self.merge(c, end, skip)), brk

        self.loop_core(pre, start, body, n, i, self.target_names(s.target), s)

    def target_names(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

    def sym_while(self, s):
        i = None
        pre = self.st

        def body():
            # test first; a false test is an exit without change
            brk = []
            st_false = []

            def ok():
                return None

            c = self.truth(self.eval(s.test))
            c = constrain(c, self.st.pc)
            if c is FALSE:
                return None, [(self.st.pc, None, self.st)]
            if c is not TRUE:
                stf = self.st.fork(b_not(c))
                brk.append((stf.pc, None, stf))
                self.st = self.st.fork(c)
            st, b2 = self.run_body(s.body)
            return st, brk + b2

        self.loop_core(pre, lambda st: setattr(self, "st", st), body, None, i, set(), s)

    def wrap_val(self, v):
        return v

    def loop_core(self, pre, start, body, n, i, targets, s):
        limit = self.nid
        frame_id = self.frame.id
        sink0 = len(self.sinks)
        ev0 = len(pre.events)
        rets = self.fn_stack[-1].items
        ret0 = len(rets)
        caught0 = [len(h.caught) for h in self.handlers]
        carried = []
        mus = {}
        kinds = {}
        outer, self.partial = self.partial, set()
        for _round in range(12):
            st = pre.fork(TRUE)
            self.nid_save = self.nid
            mus = {}
            for sl in carried:
                v = self.slot_get(pre, sl)
                if v is UNDEF and sl[0] == frame_id and sl[1] in self.partial and kinds.get(sl):
                    # bound in some iterations only: keeps its value in the others
                    v = app("undef", ty=kinds[sl])
                mus[sl] = self.make_mu(v, sl, st)
            del self.sinks[sink0:]
            del rets[ret0:]
            for h, k in zip(self.handlers, caught0):
                del h.caught[k:]
            start(st)
            base = self.st.fork(TRUE)
            end, brk = body()
            found = set(carried)
            ends = ([end] if end is not None else []) + [b[2] for b in brk]
            # also states that return / raise-handled from inside only matter for their own values
            for e in ends:
                for sl in self.changed_slots(base, e, limit):
                    if sl[0] == frame_id and sl[1] in targets:
                        continue
                    found.add(sl)
                    if sl not in kinds:
                        t = self.slot_term(e, sl)
                        kinds[sl] = t.ty if t is not None else None
            if found == set(carried) and not any(
                    mus.get(sl) is None and sl[0] == frame_id and sl[1] in self.partial and kinds.get(sl) for sl in carried):
                break
            carried = sorted(found, key=lambda x: (x[0], str(x[1])))
        else:
            self.unknown("loop fixpoint")
        self.partial = outer
        self.finish_loop(pre, base, end, brk, carried, mus, n, i, s, sink0, ret0, ev0, caught0, targets)

    def nested(self, t):
        """Element type of a list of lists."""
        from . import lib
        et = lib.elem_type(t.args) if t.op == "list" and t.args else (None,)
        return et if et[0] in ("list", "idx") else None

    def make_mu(self, v, sl, st):
        """Install a placeholder for slot sl in state st; return (mu term(s), init term)."""
        save = self.st
        self.st = st
        try:
            if v is UNDEF:
                return None
            if isinstance(v, HList):
                k = {"gen": "list"}.get(v.kind, v.kind)
                init = self.list_term(v)
                m = fresh(k, self.nested(init) if k == "list" else None, "m")
                self.slot_put(st, sl, HList([("s", TRUE, m)], v.kind, v.ident))
                return (m, init)
            if isinstance(v, Tup):
                vals, ms, ins = [], [], []
                for x in v.items:
                    t = self.term(x)
                    m = fresh(t.ty[0], t.ty[1], "m")
                    vals.append(self.own(m))
                    ms.append(m)
                    ins.append(t)
                self.slot_put(st, sl, Tup(vals))
                return (app("tuple", *ms), app("tuple", *ins))
            t = self.term(v)
            kd, nd = t.ty
            if kd == "none":
                kd, nd = "?", None
            if kd == "list" and nd is None:
                nd = self.nested(t)
            m = fresh(kd, nd, "m")
            h = st.heap[sl[0]]
            if isinstance(h, HCell):
                self.slot_put(st, sl, m)
            else:
                self.slot_put(st, sl, self.own(m))
            return (m, t)
        finally:
            self.st = save

    def slot_term(self, st, sl):
        v = self.slot_get(st, sl)
        save = self.st
        self.st = st
        try:
            if v is UNDEF:
                return None
            if isinstance(v, HList):
                return self.list_term(v)
            return self.term(v)
        finally:
            self.st = save

    def finish_loop(self, pre, base, end, brk, carried, mus, n, i, s, sink0, ret0, ev0, caught0, targets):
        pc_in = base.pc
        mu_fresh = set()
        for sl in carried:
            if mus.get(sl):
                mu_fresh |= mus[sl][0].fv
        rets = self.fn_stack[-1].items
        new_rets = rets[ret0:]
        del rets[ret0:]
        new_sinks = self.sinks[sink0:]
        del self.sinks[sink0:]
        caught = []
        for h, k in zip(self.handlers, caught0):
            caught.append((h, h.caught[k:]))
            del h.caught[k:]
        idx = frozenset((i.attr,)) if i is not None else frozenset()

        def local(c):
            return constrain(c, pc_in)

        def exists(c):
            """Loop-invariant condition: some iteration satisfies c."""
            c = local(c)
            if c is FALSE:
                return FALSE
            if c.fv & mu_fresh:
                # depends on carried state: opaque but canonical
                allm = [m for sl in carried if mus.get(sl) for m in self.mu_list(mus[sl][0])]

                def leaf(b):
                    if b is FALSE:
                        return FALSE
                    vs = self.order_vars([m for m in allm if m.fv & b.fv], b)
                    allv = vs + ([i] if i is not None and (b.fv & idx) else [])
                    x = bind(b, *allv) if allv else b
                    return batom(app("someiter", n if n is not None else NONE, x, ty=("bool", 0)))

                return tm.hoist(leaf, c, *(allm + ([i] if i is not None else [])))
            if i is None:
                return batom(app("someiter", NONE, c, ty=("bool", 0)))
            if not (c.fv & idx):
                return b_and(c, cmp0(n, ">"))
            return exists_dom(n, i, c)

        out = pre.fork(TRUE)
        # events
        evs = list(pre.events)
        seen_ev = set()
        for st in ([end] if end is not None else []) + [b[2] for b in brk] + [r[2] for r in new_rets]:
            for e in st.events[ev0:]:
                if id(e) in seen_ev:
                    continue
                seen_ev.add(id(e))
                c = exists(e.pc)
                t = e.t
                if e.kind in ("eff", "print"):
                    body = t if local(e.pc) is TRUE else app("guarded", local(e.pc), t)
                    vs = ([i] if i is not None and (body.fv & idx) else [])
                    vs += self.order_vars([m for sl in carried if mus.get(sl) for m in self.mu_list(mus[sl][0]) if m.fv & body.fv], body)
                    t = app("each", n if n is not None else NONE, bind(body, *vs) if vs else body)
                    c = TRUE if e.kind == "eff" else c
                evs.append(Event(b_and(pre.pc, c), e.kind, t, e.loc))
        out.events = tuple(evs)
        sol = list(pre.solves)
        for st in ([end] if end is not None else []) + [b[2] for b in brk]:
            for e in st.solves[len(pre.solves):]:
                if e not in sol:
                    sol.append(e)
        out.solves = tuple(sol)
        exit_conds = []
        # raises
        stop = FALSE
        for pc, name, loc, st in new_sinks:
            c = b_and(pre.pc, exists(pc))
            self.sinks.append((c, name, loc, st))
            stop = b_or(stop, exists(pc))
        for h, cs in caught:
            for hi, pc, st, exc in cs:
                c = exists(pc)
                st2 = pre.fork(c)
                et = exc if not isinstance(exc, T) or not (exc.fv & (idx | mu_fresh)) else tm._node("excv", (), "*", ("obj", None))
                h.caught.append((hi, st2.pc, st2, et))
                stop = b_or(stop, c)
        for pc, v, st in new_rets:
            c = exists(pc)
            save = self.st
            self.st = st
            tv = self.term(v)
            self.st = save
            if tv.fv & (idx | mu_fresh):
                vs = self.order_vars([m for sl in carried if mus.get(sl) for m in self.mu_list(mus[sl][0]) if m.fv & (tv.fv | pc.fv)],
                                     app("tuple", local(pc), tv))
                if i is not None:
                    vs = vs + [i]
                tv = app("first", n if n is not None else NONE, bind(app("tuple", local(pc), tv), *vs), ty=tv.ty)
            st2 = pre.fork(c)
            st2.events = out.events
            vv = v if not (self.has_fresh(v, st, idx | mu_fresh)) and not isinstance(v, T) else tv
            if isinstance(vv, Ref) and vv.id not in st2.heap:
                vv = tv
            rets.append((st2.pc, vv, st2))
            stop = b_or(stop, c)
        # carried slots
        loop_term_cache = {}
        if end is None and not brk:
            # body never completes normally: only zero iterations falls through
            if n is None:
                raise Dead()
            self.st = out
            self.assume(b_not(cmp0(n, ">")) if n is not None else TRUE)
            return
        E = FALSE  # exit condition of an iteration
        for b in brk:
            E = b_or(E, local(b[0]))
        if n is not None and brk and end is not None:
            bex = exists_or = FALSE
        results = {}
        live = []
        for sl in carried:
            S = self.slot_term(end, sl) if end is not None else None
            if S is not None and n is not None and i is not None:
                S = tm.in_domain(S, i, n)
            X = None
            if brk:
                items = [(b[0], self.slot_term(b[2], sl)) for b in brk]
                items = [(p, t) for p, t in items if t is not None]
                if items:
                    X = items[-1][1]
                    for p, t in reversed(items[:-1]):
                        X = ite(local(p), t, X)
            mu = mus.get(sl)
            if S is None:
                S = X
            if X is None:
                X = S
            live.append((sl, mu, S, X))
        info = {sl: (mu, S, X) for sl, mu, S, X in live}
        if n is not None and brk:
            # search loop: nothing carried on the normal path
            moved = [sl for sl in info if info[sl][0] is not None and info[sl][1] is not info[sl][0][0]]
            if not moved and not (E.fv & mu_fresh):
                c = exists_dom(n, i, E) if (E.fv & idx) else b_and(E, cmp0(n, ">"))
                for sl, (mu, S, X) in info.items():
                    if mu is None:
                        if not (X.fv & (idx | mu_fresh)):
                            self.slot_out(out, sl, X)
                        continue
                    m, init = mu
                    Xv = subst(X, {m: init}) if m.op == "fresh" else X
                    if Xv.fv & idx:
                        Xv = app("first", n, bind(app("tuple", E, Xv), i), ty=Xv.ty)
                    self.slot_out(out, sl, ite(c, Xv, init))
                self.st = out
                self.assume(b_not(stop))
                return
        simple = n is not None and not brk
        rest = []
        inv = {}
        # values that an iteration leaves unchanged or that do not depend on carried state
        for sl, (mu, S, X) in info.items():
            if mu is None:
                # variable first assigned inside the loop: value of the last iteration
                if simple and not (S.fv & mu_fresh):
                    r = S if not (S.fv & idx) else app("last", n, bind(S, i), ty=S.ty)
                    results[sl] = r
                elif simple:
                    results[sl] = None
                else:
                    rest.append(sl)
                continue
            m, init = mu
            if S is m and X is m:
                results[sl] = init
                inv[m] = init
        changed = True
        env = dict(inv)
        if simple:
            todo = [sl for sl in info if info[sl][0] is not None and sl not in results]
            progress = True
            while progress and todo:
                progress = False
                for sl in list(todo):
                    mu, S, X = info[sl]
                    m, init = mu
                    S1 = subst(S, {k: v for k, v in env.items() if k.op == "fresh"}) if env else S
                    if m.op == "fresh" and m.attr in S1.fv and i.attr in S1.fv and S1.op == "ite":
                        # changed by the last iteration only: every iteration starts with the initial value
                        last = sub(n, ONE)
                        if constrain(S1, cmp0(sub(i, last), "<")) is m:
                            v = subst(S1, {i: last, m: init})
                            results[sl] = ite(cmp0(n, ">"), v, init)
                            env[m] = init
                            todo.remove(sl)
                            progress = True
                            continue
                    r = self.summarise(m, init, S1, n, i, mu_fresh)
                    if r is not None:
                        results[sl] = r
                        if m.op == "fresh" and m.ty == ("num", 0) and init.ty == ("num", 0):
                            step = sub(S1, m)
                            if not (step.fv & (mu_fresh | idx)):
                                # a counter: its value when iteration i starts
                                env[m] = add(init, mul(step, i))
                        todo.remove(sl)
                        progress = True
            rest += todo
        else:
            rest += [sl for sl in info if info[sl][0] is not None and sl not in results and sl not in rest]
        if rest:
            self.fold_slots(rest, info, env, n, i, E, results)
        for sl, r in results.items():
            if r is not None:
                self.slot_out(out, sl, r)
            else:
                self.slot_out(out, sl, app("last", NONE, attr="loopvar"))
        self.st = out
        self.assume(b_not(stop))

    def order_vars(self, ms, body):
        """Order of the placeholders a body closes over, independent of their names."""
        if len(ms) < 2:
            return ms
        ph = {}
        for a in body.fv:
            f = tm.FRESH.get(a)
            if f is not None:
                ph[f] = sym("$o", f.ty[0], f.ty[1] if not isinstance(f.ty[1], tuple) else None)
        keys = {}
        for m in ms:
            p = dict(ph)
            p[m] = sym("$me", m.ty[0], m.ty[1])
            keys[m] = subst(body, p).dig
        return sorted(ms, key=lambda m: keys[m])

    def has_fresh(self, v, st, fr):
        save = self.st
        self.st = st
        try:
            return bool(self.term(v).fv & fr)
        finally:
            self.st = save

    def mu_list(self, m):
        if m.op == "fresh":
            return [m]
        return list(m.args)

    def slot_out(self, st, sl, t):
        save = self.st
        self.st = st
        try:
            h = st.heap.get(sl[0])
            if isinstance(h, HList):
                st.heap[sl[0]] = self.from_list_term(t, h.kind if h.kind != "gen" else "list", h.ident)
                hl = st.heap[sl[0]]
                if hl.kind != h.kind and h.kind in ("set", "dict"):
                    st.heap[sl[0]] = HList(hl.parts, h.kind, h.ident)
            elif isinstance(h, HCell):
                self.slot_put(st, sl, t)
            else:
                self.slot_put(st, sl, self.own(t) if isinstance(t, T) else t)
        finally:
            self.st = save

    def summarise(self, m, init, S, n, i, mu_fresh):
        """Closed form of a carried slot over i in [0, n), or None."""
        if m.op != "fresh":
            return None
        others = mu_fresh - {m.attr}
        if S.fv & others:
            return None
        if m.attr not in S.fv:
            if i.attr not in S.fv:
                return ite(cmp0(n, ">"), S, init) if not S.fv & {i.attr} else None
            return app("last", n, bind(S, i), init, ty=S.ty)
        # list append
        if S.op in ("list", "dict", "set") and S.args and S.args[0].op == "spread" and S.args[0].args[0] is m:
            items = S.args[1:]
            if any(m.attr in x.fv for x in items):
                return None
            seg = mk_seg(n, i, list(items))
            base = init.args if init.op == S.op else (app("spread", init),)
            return mk_list(list(base) + [seg], S.op)
        if S.op == "setadd" and S.args[0] is m:
            return None
        # accumulation
        d = sub(S, m) if m.ty[0] in ("num", "?", "arr", "ser", "df", "cvx") else None
        if d is not None and m.attr not in d.fv:
            return add(init, self.lib.sumover(n, i, d))
        # gated accumulation: every leaf is m + e
        w = self.writes_of(S, m)
        if w is not None:
            return self.lib.writes_loop(init, n, i, w)
        return None

    def writes_of(self, S, m):
        """Sequence of array writes applied to m, or None."""
        if S is m:
            return []
        if S.op == "writes" and S.args[0] is m:
            ws = list(S.args[1:])
            if any(m.attr in w.fv for w in ws):
                return None
            return ws
        if S.op == "ite":
            c = S.args[0]
            if m.attr in c.fv:
                return None
            a, b = self.writes_of(S.args[1], m), self.writes_of(S.args[2], m)
            if a is None or b is None:
                return None
            k = 0
            while k < min(len(a), len(b)) and a[k] is b[k]:
                k += 1
            return a[:k] + [guard_w(batom(c), w) for w in a[k:]] + [guard_w(b_not(batom(c)), w) for w in b[k:]]
        return None

    def fold_slots(self, rest, info, env, n, i, E, results):
        env = {k: v for k, v in env.items() if k.op == "fresh"}

        def sb(t):
            return subst(t, env) if env and t is not None else t

        E = sb(E)
        data = {}
        # a solved slot whose running value is still read by an unsolved one belongs to the fold as well
        extra = []
        grown = True
        while grown:
            grown = False
            used = set(E.fv)
            for sl in rest + extra:
                for t in info[sl][1:]:
                    if t is not None:
                        used |= sb(t).fv
            for sl, (mu, S, X) in info.items():
                if mu is not None and sl not in rest and sl not in extra and mu[0].fv & used:
                    extra.append(sl)
                    grown = True
        for sl in rest + extra:
            mu, S, X = info[sl]
            if mu is None:
                m = fresh(S.ty[0], S.ty[1], "m")
                init = app("undef")
            else:
                m, init = mu
            data[sl] = (m, init, sb(S), sb(X))
        owner = {}
        for sl, (m, init, S, X) in data.items():
            for a in m.fv:
                owner[a] = sl
        # group: closure of dependencies through E, S and X
        def closure(start):
            seen = set()
            todo = list(start)
            while todo:
                sl = todo.pop()
                if sl in seen:
                    continue
                seen.add(sl)
                m, init, S, X = data[sl]
                for a in (S.fv | X.fv | E.fv):
                    if a in owner and owner[a] not in seen:
                        todo.append(owner[a])
            return seen

        done = {}
        for sl in rest:
            grp = frozenset(closure([sl]))
            if grp not in done:
                done[grp] = self.build_fold(grp, data, n, i, E)
            results[sl] = done[grp][sl]

    def build_fold(self, grp, data, n, i, E):
        # canonical slot order: refine colours until names and definition order cannot matter
        others = set()
        for sl in grp:
            for t in data[sl][1:]:
                others |= t.fv
        ph0 = {}
        for a in others:
            f = tm.FRESH.get(a)
            if f is not None:
                ph0[f] = sym("$o", f.ty[0], f.ty[1] if not isinstance(f.ty[1], tuple) else None)
        if i is not None:
            ph0[i] = sym("$i", "num", 0)
        colour = {sl: "" for sl in grp}
        for _ in range(3):
            ph = dict(ph0)
            for sl in grp:
                for k, m in enumerate(self.mu_list(data[sl][0])):
                    ph[m] = sym("$mu%s.%d" % (colour[sl], k), m.ty[0], m.ty[1])
            new = {}
            for sl in grp:
                m, init, S, X = data[sl]
                new[sl] = tm.app("key", subst(init, ph0), subst(S, ph), subst(X, ph)).dig
            colour = {sl: str(new[sl]) for sl in grp}

        def key(sl):
            return (colour[sl], str(sl[1]))

        order = sorted(grp, key=key)
        vs = []
        for sl in order:
            vs += self.mu_list(data[sl][0])
        if i is not None:
            vs.append(i)
        body = app("tuple", E, *[x for sl in order for x in (data[sl][3], data[sl][2])])
        f = app("fold", n if n is not None else NONE, app("tuple", *[data[sl][1] for sl in order]), bind(body, *vs),
                ty=("tuple", None))
        out = {}
        for k, sl in enumerate(order):
            ty = data[sl][3].ty
            if data[sl][0].op == "tuple":
                ty = ("tuple", None)
                out[sl] = app("tuple", *[app("foldout", f, attr=(k, j), ty=x.ty) for j, x in enumerate(data[sl][0].args)])
            else:
                out[sl] = app("foldout", f, attr=k, ty=ty)
        return out

    # -------------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown("expression " + type(e).__name__)
        old = self.loc
        if hasattr(e, "lineno"):
            self.loc = (self.loc_file(), e.lineno, self._cur[2])
        v = m(e)
        if isinstance(v, T) and self.mark_origin and v not in self.origin:
            self.origin[v] = self.loc
        self.loc = old
        return v

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return Tup(self.eval_elts(e.elts))

    def eval_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                out += self.concrete_items(v)
            else:
                out.append(self.own(self.eval(x)))
        return out

    def concrete_items(self, v):
        ch = self.lib.chunks(self, v)
        if all(c[0] == "item" and c[1] is TRUE for c in ch):
            return [c[2] for c in ch]
        self.unknown("star of symbolic sequence")
        return [self.unknown("star")]

    def e_List(self, e):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts += self.lib.parts_of(self, self.eval(x.value))
            else:
                parts.append(("i", TRUE, self.own(self.eval(x))))
        return self.alloc(HList(parts))

    def e_Set(self, e):
        return self.alloc(HList([("i", TRUE, self.own(self.eval(x))) for x in e.elts], "set"))

    def e_Dict(self, e):
        ref = self.alloc(HList([], "dict"))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.call_method(self, ref, "update", [self.eval(v)], {})
            else:
                self.lib.dict_set(self, ref, self.eval(k), self.own(self.eval(v)))
        return ref

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.eval(e.left), self.eval(e.right))

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return self.bool_val(b_not(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            return neg(self.lib.numt(self, v))
        if isinstance(e.op, ast.UAdd):
            return v
        return self.lib.invert(self, v)

    def bool_val(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return c

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        vals = e.values

        def go(k):
            v = self.eval(vals[k])
            if k == len(vals) - 1:
                return v
            c = self.truth(v)
            if is_and:
                return self.branch(c, lambda: go(k + 1), lambda: v)
            return self.branch(c, lambda: v, lambda: go(k + 1))

        return go(0)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_Compare(self, e):
        left = self.eval(e.left)

        def go(k, left):
            right = self.eval(e.comparators[k])
            r = self.compare(type(e.ops[k]).__name__, left, right)
            if k == len(e.ops) - 1:
                return r
            c = self.truth(r)
            return self.branch(c, lambda: go(k + 1, right), lambda: False)

        return go(0, left)

    def e_Lambda(self, e):
        return self.make_func(e, "<lambda>")

    def e_NamedExpr(self, e):
        v = self.own(self.eval(e.value))
        self.assign(e.target, v)
        return v

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            parts.append(self.eval(v))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return app("fmt", *[self.term(p) for p in parts], ty=("str", 0))

    def e_FormattedValue(self, e):
        v = self.eval(e.value)
        if isinstance(v, str) and e.format_spec is None:
            return v
        spec = self.eval(e.format_spec) if e.format_spec is not None else ""
        if is_host(v) and isinstance(spec, str) and e.conversion == -1:
            return format(v, spec)
        return app("fmtv", self.term(v), self.term(spec), ty=("str", 0))

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        return self.getitem(b, self.eval_index(e.slice))

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_index(x) for x in s.elts])
        return self.eval(s)

    def e_Slice(self, e):
        return self.eval_index(e)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Call(self, e):
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_items(self.eval(a.value))
            else:
                args.append(self.own(self.eval(a)))
        kw = {}
        for k in e.keywords:
            v = self.own(self.eval(k.value))
            if k.arg is None:
                self.spread_kwargs(kw, v)
            else:
                kw[k.arg] = v
        loc = self.loc
        self.call_sites += 1
        r = self.call(f, args, kw)
        self.loc = loc
        return r

    def spread_kwargs(self, kw, v):
        if isinstance(v, VIte):
            a, b = {}, {}
            self.spread_kwargs(a, v.a)
            self.spread_kwargs(b, v.b)
            if set(a) == set(b):
                for k in a:
                    kw[k] = self.merge_val(v.c, a[k], b[k])
                return
            kw["**"] = self.term(v)
            return
        if isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, HList) and h.kind == "dict":
                for p in h.parts:
                    if p[0] == "i" and p[1] is TRUE and isinstance(p[2].items[0], str):
                        kw[p[2].items[0]] = p[2].items[1]
                    else:
                        kw["**"] = self.term(v)
                return
        t = self.term(v)
        if t.op == "dict" and not t.args:
            return
        kw["**"] = t

    def e_ListComp(self, e):
        return self.alloc(HList(self.comp(e.generators, lambda: self.own(self.eval(e.elt)))))

    def e_GeneratorExp(self, e):
        return self.alloc(HList(self.comp(e.generators, lambda: self.own(self.eval(e.elt))), "gen"))

    def e_SetComp(self, e):
        return self.alloc(HList(self.comp(e.generators, lambda: self.own(self.eval(e.elt))), "set"))

    def e_DictComp(self, e):
        ps = self.comp(e.generators, lambda: Tup((self.own(self.eval(e.key)), self.own(self.eval(e.value)))), "dict")
        return self.lib.dict_of_parts(self, ps)

    def comp(self, gens, leaf, kind="list"):
        fr = self.alloc(HFrame({}, self.frame, "comp"))
        self.cur_mod_push(self.mod, fr, self._cur[2], self._cur[3])
        try:
            return self.comp_gen(gens, 0, leaf, kind)
        finally:
            self.cur_pop()

    def comp_gen(self, gens, k, leaf, kind):
        """Parts produced by generator clauses k.. in the current frame."""
        if k == len(gens):
            return [("i", TRUE, leaf())]
        g = gens[k]
        return self.comp_chunks(self.lib.chunks(self, self.eval(g.iter), True), gens, k, leaf, kind)

    def comp_chunks(self, chunks, gens, k, leaf, kind):
        g = gens[k]
        parts = []
        for ch in chunks:
            if ch[0] == "item":
                guard, v = ch[1], ch[2]
                self.assign(g.target, v)
                parts += self.comp_if(g.ifs, 0, guard, lambda: self.comp_gen(gens, k + 1, leaf, kind))
            else:
                _, n, elem = ch
                i = fresh("num", 0, "i")
                pre = self.st
                sink0 = len(self.sinks)
                caught0 = [len(h.caught) for h in self.handlers]
                indom = batom(tm._node("indom", (i, n), None, ("bool", 0)))
                self.st = pre.fork(indom)
                alive = True
                try:
                    if ch[0] == "nest":
                        ps = self.comp_chunks(elem(i), gens, k, leaf, kind)
                    else:
                        guard, v = elem(i)
                        self.assign(g.target, v)
                        ps = self.comp_if(g.ifs, 0, guard, lambda: self.comp_gen(gens, k + 1, leaf, kind))
                    terms = [self.part_term(p, kind, 0) for p in ps]
                except Dead:
                    alive, terms = False, []
                post = self.st
                # exceptions raised for some element
                stop = FALSE
                for q in range(sink0, len(self.sinks)):
                    c, nm, loc, st = self.sinks[q]
                    c2 = self.some(n, i, constrain(c, indom))
                    self.sinks[q] = (b_and(pre.pc, c2), nm, loc, st)
                    stop = b_or(stop, c2)
                for h, q0 in zip(self.handlers, caught0):
                    for q in range(q0, len(h.caught)):
                        hi, c, st, exc = h.caught[q]
                        c2 = self.some(n, i, constrain(c, indom))
                        st2 = pre.fork(c2)
                        if isinstance(exc, T) and i.attr in exc.fv:
                            exc = tm._node("excv", (), "*", ("obj", None))
                        h.caught[q] = (hi, st2.pc, st2, exc)
                        stop = b_or(stop, c2)
                evs = list(pre.events)
                for e in post.events[len(pre.events):]:
                    c2 = self.some(n, i, constrain(e.pc, indom))
                    t = e.t
                    if i.attr in t.fv:
                        t = app("each", n, bind(t, i))
                    evs.append(Event(b_and(pre.pc, c2), e.kind, t, e.loc))
                heap = dict(pre.heap)
                for hk, ho in post.heap.items():
                    if hk not in heap:
                        heap[hk] = ho
                self.st = State(heap, pre.pc, tuple(evs), post.solves)
                if not alive:
                    self.assume(b_not(cmp0(n, ">")))
                else:
                    self.assume(b_not(stop))
                parts.append(("s", TRUE, mk_seg(n, i, terms)))
        return parts

    def some(self, n, i, c):
        """Diagram: some index in [0, n) satisfies c."""
        if c is FALSE:
            return FALSE
        if i.attr not in c.fv:
            return b_and(c, cmp0(n, ">"))
        return exists_dom(n, i, c)

    def comp_if(self, ifs, k, guard, cont):
        if guard is FALSE:
            return []
        if k == len(ifs):
            st = self.st
            if guard is not TRUE:
                g = constrain(guard, self.st.pc)
                if g is FALSE:
                    return []
                res = []

                def th():
                    res.extend(cont())

                self.branch(g, th, lambda: None)
                return [(p[0], b_and(g, p[1]), p[2]) for p in res]
            return cont()
        box = []

        def test():
            box.append(self.truth(self.eval(ifs[k])))

        if guard is TRUE:
            test()
        else:
            self.branch(guard, test, lambda: None)
        return self.comp_if(ifs, k + 1, b_and(guard, box[0]), cont)

    def e_Yield(self, e):
        v = self.own(self.eval(e.value)) if e.value is not None else None
        out = self._yield[-1]
        h = self.get(out)
        self.put(out, HList(h.parts + (("i", TRUE, v),), "gen"))
        return None

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        out = self._yield[-1]
        h = self.get(out)
        self.put(out, HList(h.parts + tuple(self.lib.parts_of(self, v)), "gen"))
        return None

    _yield = []

    # -------------------------------------------------------------- operations
    def truth(self, v):
        return self.lib.truth(self, v)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    def class_lookup(self, cls, name, after=None):
        skip = after is not None
        for c in cls.mro():
            if skip:
                if c is after:
                    skip = False
                continue
            if isinstance(c, Cls):
                vs = self.get(c.frame).vars
                if name in vs:
                    return vs[name]
        return UNDEF

    def bind_attr(self, v, self_, cls):
        if isinstance(v, Wrap):
            if v.kind == "staticmethod":
                return v.func
            if v.kind == "classmethod":
                return Bound(v.func, cls)
            return self.call(v.func, [self_], {})
        if isinstance(v, Func):
            return Bound(v, self_)
        return v

    def getattr(self, base, name):
        if isinstance(base, VIte):
            return self.branch(base.c, lambda: self.getattr(base.a, name), lambda: self.getattr(base.b, name))
        if isinstance(base, Ref):
            h = self.get(base)
            if isinstance(h, HObj):
                if name in h.attrs:
                    v = h.attrs[name]
                    return v
                if name == "__class__":
                    return h.cls
                if name == "__dict__":
                    return self.unknown("__dict__")
                v = self.class_lookup(h.cls, name)
                if v is not UNDEF:
                    return self.bind_attr(v, base, h.cls)
                if h.cls.lib_bases() and name in ("args", "__init__", "with_traceback"):
                    return LibM(base, name)
                self.raise_exc(Lib("builtins.AttributeError"), NONE)
        if isinstance(base, Cls):
            if name == "__name__":
                return base.name
            v = self.class_lookup(base, name)
            if v is UNDEF:
                self.raise_exc(Lib("builtins.AttributeError"), NONE)
            if isinstance(v, Wrap):
                return v.func if v.kind == "staticmethod" else Bound(v.func, base) if v.kind == "classmethod" else v
            return v
        if isinstance(base, Mod):
            vs = self.get(base.frame).vars
            if name in vs:
                return vs[name]
            m = self.load(base.name + "." + name)
            if m is not None:
                return m
            raise AnchorMissing("%s.%s" % (base.name, name))
        if isinstance(base, SuperV):
            o = base.self_
            cls = self.get(o).cls if isinstance(o, Ref) else o
            v = self.class_lookup(cls, name, after=base.cls)
            if v is UNDEF:
                return LibM(base, name)
            return self.bind_attr(v, o, cls)
        return self.lib.getattr_lib(self, base, name)

    def setattr(self, base, name, v):
        v = self.own(v)
        if isinstance(base, VIte):
            self.branch(base.c, lambda: self.setattr(base.a, name, v), lambda: self.setattr(base.b, name, v))
            return
        if isinstance(base, T) and base.op == "ite" and base.ty[0] in ("?", "cvx", "con"):
            self.branch(batom(base.args[0]), lambda: self.setattr(self.unterm(base.args[1]), name, v),
                        lambda: self.setattr(self.unterm(base.args[2]), name, v))
            return
        if isinstance(base, Ref):
            h = self.get(base)
            if isinstance(h, HObj):
                at = dict(h.attrs)
                at[name] = v
                self.put(base, HObj(h.cls, at))
                return
        if isinstance(base, Cls):
            self.set_var(base.frame, name, v)
            self.event("globalwrite", app("class", attr=base.name + "." + name))
            return
        if isinstance(base, Mod):
            self.set_var(base.frame, name, v)
            self.event("globalwrite", app("module", attr=base.name + "." + name))
            return
        self.lib.setattr_lib(self, base, name, v)

    def getitem(self, base, idx):
        return self.lib.getitem(self, base, idx)

    def setitem(self, base, idx, v):
        self.lib.setitem(self, base, idx, self.own(v))

    # -------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, VIte):
            return self.branch(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.self_] + args, kw)
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, Wrap):
            return self.call(f.func, args, kw)
        if isinstance(f, Intr):
            return f.fn(self, args, kw)
        if isinstance(f, Lib):
            return self.lib.call_lib(self, f.path, args, kw)
        if isinstance(f, LibM):
            return self.lib.call_method(self, f.base, f.name, args, kw)
        if isinstance(f, Ref) and isinstance(self.get(f), HObj):
            m = self.class_lookup(self.get(f).cls, "__call__")
            if m is not UNDEF:
                return self.call(self.bind_attr(m, f, self.get(f).cls), args, kw)
        return self.lib.call_term(self, f, args, kw)

    def construct(self, cls, args, kw):
        ref = self.alloc(HObj(cls, {}))
        init = self.class_lookup(cls, "__init__")
        if init is not UNDEF:
            self.call_func(init, [ref] + args, kw)
        elif cls.lib_bases():
            o = self.get(ref)
            self.put(ref, HObj(cls, {"args": Tup(args)}))
        return ref

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            return self.unknown("recursion")
        if f.qual in self.rec_opaque and any(x is f for x in self._active):
            self.depth -= 1
            t = app("rec", *[self.term(a) for a in args], *[self.term(kw[k]) for k in sorted(kw)],
                    attr=(f.name, len(args), tuple(sorted(kw))), ty=("tuple", None))
            return t
        if sum(1 for x in self._active if x is f) > 8:
            self.depth -= 1
            return self.unknown("recursion")
        self._active = self._active + [f]
        self.calls_seen.add((f.mod.name, f.qual))
        env = self.bind_args(f, args, kw)
        fr = self.alloc(HFrame(env, f.frame, "func"))
        ctx = Ctx()
        self.fn_stack.append(ctx)
        pc0 = self.st.pc
        cur = self._cur
        self.cur_mod_push(f.mod, fr, f.qual, getattr(f, "in_cls", None))
        loops = self.loops
        self.loops = []
        if f.gen:
            out = self.alloc(HList([], "gen"))
            self._yield = self._yield + [out]
        loc = self.loc
        try:
            try:
                if isinstance(f.node, ast.Lambda):
                    v = self.own(self.eval(f.node.body))
                    ctx.items.append((self.st.pc, v, self.st))
                else:
                    self.exec_block(f.node.body)
                    ctx.items.append((self.st.pc, None, self.st))
            except Dead:
                pass
        finally:
            self._cur = cur
            self.fn_stack.pop()
            self.loops = loops
            self.depth -= 1
            self._active = self._active[:-1]
            self.loc = loc
            if f.gen:
                self._yield = self._yield[:-1]
        if not ctx.items:
            raise Dead()
        v, st = self.merge_many(ctx.items, pc0)
        self.st = st
        return out if f.gen else v

    _active = []

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        extra = None
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_exc(Lib("builtins.TypeError"), NONE)
            extra = args[len(names):]
            args = args[: len(names)]
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(extra or ())
        for n in names[len(args):]:
            if n in kw:
                env[n] = kw.pop(n)
        for n in names[: len(args)]:
            if n in kw:
                self.raise_exc(Lib("builtins.TypeError"), NONE)
        nd = len(names) - len(f.defaults)
        for k, n in enumerate(names):
            if n not in env:
                if k >= nd:
                    env[n] = f.defaults[k - nd]
                elif "**" in kw:
                    env[n] = app("kwget", kw["**"], const(n))
                else:
                    self.raise_exc(Lib("builtins.TypeError"), NONE)
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif f.kwdefaults.get(x.arg, UNDEF) is not UNDEF:
                env[x.arg] = f.kwdefaults[x.arg]
            else:
                self.raise_exc(Lib("builtins.TypeError"), NONE)
        if a.kwarg is not None:
            parts = [("i", TRUE, Tup((k, v))) for k, v in kw.items() if k != "**"]
            if "**" in kw:
                parts.append(("s", TRUE, kw["**"]))
            env[a.kwarg.arg] = self.alloc(HList(parts, "dict"))
        elif kw and set(kw) != {"**"}:
            self.raise_exc(Lib("builtins.TypeError"), NONE)
        return env


# ------------------------------------------------------------------ list terms
def guard_w(c, w):
    if c is TRUE:
        return w
    if w.op == "guarded":
        return app("guarded", b_and(c, w.args[0]), w.args[1])
    return app("guarded", c, w)


def mk_list(ps, k="list"):
    ps = [p for p in ps if not (p.op == "guarded" and p.args[0] is FALSE)]
    ps = [p.args[1] if p.op == "guarded" and p.args[0] is TRUE else p for p in ps]
    flat = []
    for p in ps:
        if p.op == "spread" and p.args[0].op in ("list", "dict", "set"):
            flat += list(p.args[0].args)
        else:
            flat.append(p)
    ps = flat
    if len(ps) == 1 and ps[0].op == "spread" and ps[0].args[0].ty[0] == k:
        return ps[0].args[0]
    if k == "set" and any(p.op == "guarded" for p in ps) and all(p.op not in ("seg", "spread") for p in ps):
        # one entry per element, there when any of its conditions holds
        when = {}
        for p in ps:
            c, x = p.args if p.op == "guarded" else (TRUE, p)
            when[x] = b_or(when.get(x, FALSE), c)
        ps = [x if c is TRUE else app("guarded", c, x) for x, c in sorted(when.items(), key=lambda e: e[0].dig) if c is not FALSE]
    if k == "set" and all(p.op not in ("seg", "spread", "guarded") for p in ps):
        ps = sorted(set(ps), key=lambda t: t.dig)
    return app(k, *ps, ty=(k, None))


def mk_seg(n, i, items):
    """Contribution of one symbolic loop to a list: items (terms / guarded) per index i."""
    if not items:
        return app("seg", ZERO, bind(app("list"), i))
    if is_num(n) and num_val(n) == 0:
        return app("seg", ZERO, bind(app("list"), i))
    items = [tm.in_domain(x, i, n) for x in items]
    if len(items) == 1 and items[0].op == "getitem" and items[0].args[1] is i:
        src = items[0].args[0]
        if i.attr not in src.fv and len_of(src) is n:
            return app("spread", src)
    if len(items) == 1 and items[0].op == "guarded" and i.attr not in items[0].args[0].fv:
        return guard_w(items[0].args[0], mk_seg(n, i, [items[0].args[1]]))
    if len(items) == 1 and (n.op == "ite" and items[0].op in ("ite", "getitem") or items[0].op == "ite" and i.attr not in items[0].args[0].fv):
        # a different list on either side of a gate
        c = n.args[0] if n.op == "ite" else items[0].args[0]
        a, b = (mk_seg(tm.cof(n, c, v), i, [tm.cof(items[0], c, v)]) for v in (True, False))
        if a.op in ("spread", "ite") and b.op in ("spread", "ite"):
            return ite(batom(c), a, b)
    return app("seg", n, bind(mk_list(items, "list"), i))


def len_of(t):
    return app("len", t)


def exists_dom(n, i, c):
    from . import lib
    n, c = lib.unsort(n, i, c)
    c = tm.in_domain(c, i, n)

    def leaf(b):
        if b is FALSE:
            return FALSE
        if i.attr not in b.fv:
            return b_and(b, cmp0(n, ">"))
        return batom(app("exists", n, bind(b, i), ty=("bool", 0)))

    return tm.hoist(leaf, c, i)
