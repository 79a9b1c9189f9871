"""Running one spec case: build inputs, analyse code() and want(), extract observables."""
import ast
import itertools
import os

from . import lib, libcalls, terms as tm
from .engine import *  # noqa
from .terms import *  # noqa

CELL = {"ser", "df", "arr1", "arr2", "arr", "?", "obj"}
TYPES = {"arr1": ("arr", 1), "arr2": ("arr", 2), "ser": ("ser", 1), "df": ("df", 2), "arr": ("arr", None)}


def lit(I, v):
    """Concrete Python value of a case grid as an abstract value."""
    if isinstance(v, tuple):
        return Tup([lit(I, x) for x in v])
    if isinstance(v, list):
        return I.alloc(HList([("i", TRUE, lit(I, x)) for x in v], "list"))
    if isinstance(v, dict):
        return I.alloc(HList([("i", TRUE, Tup((lit(I, k), lit(I, x)))) for k, x in v.items()], "dict"))
    return v


def make_input(I, name, kind):
    """Abstract value standing for every caller value of the given kind."""
    if not isinstance(kind, str) or kind.startswith("="):
        return lit(I, kind[1:] if isinstance(kind, str) else kind)
    if kind == "none":
        return None
    if kind in TYPES:
        k, n = TYPES[kind]
        return I.alloc(HCell(sym(name, k, n), name, frozenset((name,))))
    if kind in ("dict", "numdict"):
        return I.alloc(HList([("s", TRUE, sym(name, kind))], "dict", name))
    if kind in ("list", "numlist", "pairlist", "vlist"):
        return I.alloc(HList([("s", TRUE, sym(name, kind))], "list", name))
    if kind in ("?", "obj"):
        return I.alloc(HCell(sym(name, kind), name, frozenset((name,))))
    return sym(name, kind)


class Outcome:
    pass


class World:
    """The package under analysis and the spec package, loaded once."""

    def __init__(self, repo, specdir):
        self.I = I = Interp({"pypfopt": os.path.join(repo, "pypfopt"), "spec": specdir})
        self.base_uid = 0
        self.mods = {}

    def load(self, name):
        m = self.I.load(name)
        if m is None:
            raise AnchorMissing(name)
        return m

    def freeze(self):
        self.base = self.I.st
        self.base_nid = self.I.nid
        self.load_unknowns = list(self.I.unknowns)

    def run(self, fn, params, prefix=""):
        """fn: Func value of the spec; params: [(name, kind-or-literal)]."""
        I = self.I
        I.st = State(dict(self.base.heap), TRUE, (), ())
        I.nid = self.base_nid
        I.uid = 0
        I.origin = {}
        I.sinks, I.unknowns, I.handlers, I.fn_stack = [], [], [], [Ctx()]
        I.probing = 0
        I.loops = []
        I.calls_seen = set()
        I.call_sites = 0
        names = [a.arg for a in fn.node.args.args]
        d = {n: make_input(I, n, k) for n, k in params}
        o = Outcome()
        o.I = I
        I.cur_mod_push(fn.mod, fn.mod.frame, fn.name)
        try:
            try:
                g = getattr(self, "given", None)
                if g is not None:
                    # documented precondition: every path analysed lies under it
                    gn = [a.arg for a in g.node.args.args]
                    I.assume(I.truth(I.call_func(g, [d[n] for n in gn], {})))
                v = I.call_func(fn, [d[n] for n in names], {})
                o.dead = False
                o.value = v
                o.pc = I.st.pc
                o.obs = self.observables(v)
            except Dead:
                o.dead = True
                o.value, o.pc, o.obs = None, FALSE, {}
        finally:
            I.cur_pop()
        o.state = I.st
        # events and solves of raising paths count as well
        ev = list(I.st.events) if not o.dead else []
        so = list(I.st.solves) if not o.dead else []
        for s in I.sinks:
            st = s[3]
            ev += [e for e in st.events if not any(e is x for x in ev)]
            so += [e for e in st.solves if not any(e is x for x in so)]
        o.events, o.solves = ev, so
        o.sinks = [(s[0], s[1], s[2]) for s in I.sinks]
        o.unknowns = list(I.unknowns)
        o.calls = set(I.calls_seen)
        o.sites = I.call_sites
        return o

    def observables(self, v):
        I = self.I
        if isinstance(v, VIte):
            a, b = self.observables(v.a), self.observables(v.b)
            if set(a) == set(b):
                return {k: ite(v.c, a[k], b[k]) for k in a}
        if isinstance(v, Ref) and isinstance(I.get(v), HList) and I.get(v).kind == "dict":
            h = I.get(v)
            if all(p[0] == "i" and p[1] is TRUE and isinstance(p[2].items[0], str) for p in h.parts):
                return {p[2].items[0]: I.term(p[2].items[1]) for p in h.parts}
        return {"value": I.term(v)}
