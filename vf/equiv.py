"""Equality of two terms under linear arithmetic of their gates.

Decision diagrams are canonical for independent gates only.  Where gates are correlated (a < 0, b < 0,
a - b < 0) two diagrams of one function can differ in branches nothing reaches; this walks both at once
and skips those.  Loops are matched slot by slot, so a difference of that kind inside a loop body does
not spread."""
import itertools
from fractions import Fraction as Fr

from . import terms as tm
from .terms import STRUCT, as_mons, atom_key, children, fresh, subst, bvars

LIMIT = 40000
LOOPS = {"fold", "someiter", "exists", "wloop", "seg", "last", "sumover"}


class Spent(Exception):
    pass


def _half(atom, val, ints=()):
    """A sign literal as (linear form, strict): form > 0 or form >= 0; between whole numbers > 0 is >= 1."""
    d = dict(as_mons(atom.args[0]))
    pos = atom.op == "pos?"
    if pos != val:
        d = {m: -c for m, c in d.items()}
    # pos True: p>0; pos False: -p>=0; neg True: -p>0; neg False: p>=0
    if val and all(c.denominator == 1 and all(x.op == "len" or x in ints for x, e in m) for m, c in d.items()):
        d[()] = d.get((), Fr(0)) - 1
        return d, False
    return d, val


def infeasible(cons):
    """Fourier-Motzkin on a handful of half spaces."""
    cons = [(dict(d), s) for d, s in cons]
    for _ in range(40):
        live = []
        for d, s in cons:
            vs = [m for m in d if m and d[m] != 0]
            if not vs:
                c = d.get((), Fr(0))
                if c < 0 or (c == 0 and s):
                    return True
            else:
                live.append(({m: c for m, c in d.items() if c != 0}, s))
        if not live:
            return False
        count = {}
        for d, s in live:
            for m, c in d.items():
                if m:
                    p, n = count.get(m, (0, 0))
                    count[m] = (p + 1, n) if c > 0 else (p, n + 1)
        v = min(count, key=lambda m: count[m][0] * count[m][1])
        up = [x for x in live if x[0].get(v, 0) > 0]
        dn = [x for x in live if x[0].get(v, 0) < 0]
        cons = [x for x in live if not x[0].get(v, 0)]
        if len(up) * len(dn) + len(cons) > 200:
            return False
        for (a, sa), (b, sb) in itertools.product(up, dn):
            ka, kb = -b[v], a[v]
            n = {}
            for d, k in ((a, ka), (b, kb)):
                for m, c in d.items():
                    n[m] = n.get(m, Fr(0)) + c * k
            n.pop(v)
            cons.append((n, sa or sb))
    return False


class Eq:
    def __init__(self):
        self.n = 0
        self.seen = {}
        self.ints = set()

    # ------------------------------------------------------------ gates
    def decide(self, ctx, atom):
        v = ctx[0].get(atom)
        if v is not None:
            return v
        if atom.ops & LOOPS:
            for c, v in ctx[0].items():
                if c.op == atom.op and c.ops & LOOPS and self.alike(c, atom, ctx):
                    return v
        if atom.op not in ("neg?", "pos?"):
            return None
        mons = {m for m in as_mons(atom.args[0]) if m}
        for x in ctx[2]:
            if any(y is x for m in mons for y, e in m):
                return False                     # no such number: this gate is not reached
        rel, grow = [], True
        left = list(ctx[1])
        while grow:
            grow = False
            for c in list(left):
                if any(m in mons for m in c[0] if m):
                    rel.append(c)
                    left.remove(c)
                    mons |= {m for m in c[0] if m}
                    grow = True
        if infeasible(rel + [_half(atom, True, self.ints)]):
            return False
        if infeasible(rel + [_half(atom, False, self.ints)]):
            return True
        return None

    def alike(self, a, b, ctx):
        """Two gates that differ only in how a loop is written."""
        key = (a, b, tuple(ctx[0].items()))
        r = self.seen.get(key)
        if r is None:
            self.seen[key] = False
            if a.op in ("neg?", "pos?"):
                r = self.joint(a.args[0], b.args[0], ctx)
            else:
                r = self.leaf(a, b, ctx)
            self.seen[key] = r
        return r

    def add(self, ctx, atom, val):
        d = dict(ctx[0])
        d[atom] = val
        cs, nn = ctx[1], ctx[2]
        if atom.op in ("neg?", "pos?"):
            cs = cs + (_half(atom, val, self.ints),)
        if atom.op == "isnone" and val:
            nn = nn + (atom.args[0],)
        return d, cs, nn

    # ------------------------------------------------------------ terms
    def eq(self, a, b, ctx=({}, (), ())):
        if a is b:
            return True
        b = self.align(a, b)
        return self.joint(a, b, ctx)

    def joint(self, a, b, ctx):
        if a is b:
            return True
        self.n += 1
        if self.n > LIMIT:
            raise Spent()
        while a.op == "ite":
            v = self.decide(ctx, a.args[0])
            if v is None:
                break
            a = a.args[1] if v else a.args[2]
        while b.op == "ite":
            v = self.decide(ctx, b.args[0])
            if v is None:
                break
            b = b.args[1] if v else b.args[2]
        if a is b:
            return True
        tops = [x.args[0] for x in (a, b) if x.op == "ite"]
        if tops:
            c = min(tops, key=atom_key)
            return self.joint(a, b, self.add(ctx, c, True)) and self.joint(a, b, self.add(ctx, c, False))
        return self.pinned(a, b, ctx) or self.leaf(a, b, ctx)

    def leaf(self, a, b, ctx):
        if a.op == "poly" or b.op == "poly":
            return self.poly(a, b, ctx)
        if a.op == b.op == "foldout" and isinstance(a.attr, int) and isinstance(b.attr, int):
            return a.args[0].op == b.args[0].op == "fold" and any(p[a.attr] == b.attr for p in self.folds(a.args[0], b.args[0], ctx))
        if a.op == b.op == "fold":
            return any(p == tuple(range(len(p))) for p in self.folds(a, b, ctx))
        if gated(a) or gated(b):
            return self.items(a, b, ctx)
        if a.op == b.op == "condset":
            return self.events(a, b, ctx)
        if a.op != b.op or a.attr != b.attr or not a.args:
            return False
        if a.op == "bind":
            return self.bound(a, b, ctx)
        if len(a.args) != len(b.args):
            return False
        return all(self.joint(x, y, ctx) for x, y in zip(a.args, b.args))

    def items(self, a, b, ctx):
        """Two lists with items that are there on a condition: one list on each side once the conditions are settled."""
        if a.op == b.op and len(a.args) == len(b.args) and all(self.joint(x, y, ctx) for x, y in zip(a.args, b.args)):
            return True
        x, c = self.settled(a, ctx)
        y, e = self.settled(b, ctx)
        tops = [z for z in (c, e) if z is not None]
        if tops:
            g = min(tops, key=atom_key)
            return self.joint(a, b, self.add(ctx, g, True)) and self.joint(a, b, self.add(ctx, g, False))
        return self.joint(x, y, ctx)

    def events(self, a, b, ctx):
        """The same events happen on either side once the conditions they depend on are settled."""
        x, c = self.happening(a, ctx)
        y, e = self.happening(b, ctx)
        tops = [z for z in (c, e) if z is not None]
        if not tops:
            left = [p for p in x if p not in y]
            more = [q for q in y if q not in x]
            if all(any(self.joint(p, q, ctx) for q in y) for p in left) and all(any(self.joint(p, q, ctx) for p in x) for q in more):
                return True
            tops = [z for z in choices(left + more) if self.decide(ctx, z) is None]
            if not tops:
                return False
        g = min(tops, key=atom_key)
        return self.joint(a, b, self.add(ctx, g, True)) and self.joint(a, b, self.add(ctx, g, False))

    def happening(self, t, ctx):
        """The events under the gates passed, and a gate they still depend on."""
        out = []
        for x in t.args:
            g = x.args[0]
            while g.op == "ite":
                v = self.decide(ctx, g.args[0])
                if v is None:
                    return out, g.args[0]
                g = g.args[1] if v else g.args[2]
            if g is tm.FALSE:
                continue
            if g is not tm.TRUE:
                v = self.decide(ctx, g)
                if v is None:
                    return out, g
                if not v:
                    continue
            out.append(x.args[1])
        return out, None

    def settled(self, t, ctx):
        """The list under the gates passed, and a gate it still depends on."""
        if not gated(t):
            return t, None
        out = []
        for x in t.args:
            if x.op == "guarded":
                g = x.args[0]
                while g.op == "ite":
                    v = self.decide(ctx, g.args[0])
                    if v is None:
                        return t, g.args[0]
                    g = g.args[1] if v else g.args[2]
                if g is tm.FALSE:
                    continue
                if g is not tm.TRUE:
                    v = self.decide(ctx, g)
                    if v is None:
                        return t, g
                    if not v:
                        continue
                x = x.args[1]
                while x.op == "ite":
                    v = self.decide(ctx, x.args[0])
                    if v is None:
                        return t, x.args[0]
                    x = x.args[1] if v else x.args[2]
            out.append(x)
        from .engine import mk_list
        return mk_list(out, t.op), None

    def pinned(self, a, b, ctx):
        """The gates passed leave a - b no sign."""
        if a.ty[0] not in ("num", "?") or b.ty[0] not in ("num", "?") or not ctx[1]:
            return False
        known = {m for d, _ in ctx[1] for m in d if m}
        d = dict(as_mons(a))
        for m, c in as_mons(b).items():
            d[m] = d.get(m, Fr(0)) - c
        d = {m: c for m, c in d.items() if c}
        if any(m and m not in known for m in d):
            return False
        return infeasible(list(ctx[1]) + [(d, True)]) and infeasible(list(ctx[1]) + [({m: -c for m, c in d.items()}, True)])

    def poly(self, a, b, ctx):
        ma, mb = dict(as_mons(a)), dict(as_mons(b))
        for m in list(ma):
            if m in mb and ma[m] == mb[m]:
                del ma[m], mb[m]
        if not ma and not mb:
            return True
        if len(ma) != len(mb):
            return False
        for m, c in ma.items():
            for k, e in mb.items():
                if c == e and len(m) == len(k) and self.mono(m, k, ctx):
                    del mb[k]
                    break
            else:
                return False
        return True

    def mono(self, m, k, ctx):
        k = list(k)
        for x, e in m:
            for j, (y, f) in enumerate(k):
                if e == f and x.op == y.op and self.joint(x, y, ctx):
                    del k[j]
                    break
            else:
                return False
        return True

    def bound(self, a, b, ctx):
        va, vb = bvars(a), bvars(b)
        if len(va) != len(vb) or [v.ty for v in va] != [v.ty for v in vb]:
            return False
        fs = [fresh(v.ty[0], v.ty[1], "e") for v in va]
        return self.eq(subst(a.args[0], dict(zip(va, fs))), subst(b.args[0], dict(zip(vb, fs))), ctx)

    # ------------------------------------------------------------ loops
    def invariants(self, init, vs, leave, step, ctx):
        """The context of a loop body with what holds at every turn: a counter is at most the length of a list."""
        counters = [k for k, v in enumerate(vs) if v.ty[0] == "num" and tm.is_num(init[k]) and tm.num_val(init[k]).denominator == 1
                    and self.steps(step[k], v)]
        lists = [k for k, v in enumerate(vs) if v.ty[0] == "list"]
        new = []
        for k in counters:
            self.ints.add(vs[k])
            for j in lists:
                if not self.never(tm.sub(tm.app("len", init[j]), init[k]), ({}, (), ())):
                    continue
                room = tm.sub(tm.app("len", vs[j]), vs[k])
                c = ctx[0], ctx[1] + ((dict(as_mons(room)), False),), ctx[2]
                if self.never(tm.sub(tm.app("len", step[j]), step[k]), c, leave):
                    new.append((dict(as_mons(room)), False))
        return (ctx[0], ctx[1] + tuple(new), ctx[2]) if new else None

    def steps(self, t, v):
        if t.op == "ite":
            return self.steps(t.args[1], v) and self.steps(t.args[2], v)
        d = tm.sub(t, v)
        return tm.is_num(d) and tm.num_val(d).denominator == 1

    def never(self, t, ctx, unless=tm.FALSE):
        """t is never negative (where the loop is not left)."""
        return self.joint(tm.ite(unless, tm.FALSE, tm.cmp0(t, "<")), tm.FALSE, ctx)

    def align(self, a, b):
        """b with each of its loops that equals a loop of a replaced by that one."""
        for _ in range(30):
            A, B = binders(a), binders(b)
            mine = [t for t in A if t not in B]
            if not mine:
                return b
            hit = None
            for t in sorted((t for t in B if t not in A), key=lambda t: t.sz):
                for s in mine:
                    if s.op != t.op or s.attr != t.attr or len(s.args) != len(t.args):
                        continue
                    hit = self.pair(s, t, b)
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                return b
            nb = subst(b, hit)
            if nb is b:
                return b
            b = nb
        return b

    def pair(self, s, t, b):
        none = ({}, (), ())
        if s.op != "fold":
            ok = all(self.bound(x, y, none) if x.op == y.op == "bind" else x is y or self.joint(x, y, none)
                     for x, y in zip(s.args, t.args))
            return {t: s} if ok else None
        for perm in self.folds(s, t, none):
            out = {}
            for u in below(b):
                if u.op == "foldout" and u.args[0] is t:
                    if not isinstance(u.attr, int):
                        return None
                    out[u] = tm.app("foldout", s, attr=perm.index(u.attr), ty=u.ty)
            return out or None
        return None

    def folds(self, s, t, ctx):
        """Ways to match the slots of two loops: slot k of s is slot perm[k] of t."""
        if len(s.args) != 3 or len(t.args) != 3 or s.args[0] is not t.args[0] and not self.joint(s.args[0], t.args[0], ctx):
            return
        si, ti = s.args[1].args, t.args[1].args
        sv, tv = bvars(s.args[2]), bvars(t.args[2])
        n = len(si)
        if len(ti) != n or len(sv) != len(tv) or len(sv) - n not in (0, 1) or n > 9:
            return
        if s.args[2].args[0].op != "tuple" or t.args[2].args[0].op != "tuple":
            return
        sb, tb = s.args[2].args[0].args, t.args[2].args[0].args
        if len(sb) != 1 + 2 * n or len(tb) != 1 + 2 * n:
            return
        alike = [[j for j in range(n) if sv[k].ty == tv[j].ty and (si[k] is ti[j] or self.joint(si[k], ti[j], ctx))] for k in range(n)]
        for perm in itertools.product(*alike):
            if len(set(perm)) < n:
                continue
            fs = [fresh(v.ty[0], v.ty[1], "e") for v in sv]
            ms = dict(zip(sv, fs))
            mt = {tv[perm[k]]: fs[k] for k in range(n)}
            if len(sv) > n:
                mt[tv[n]] = fs[n]
            at = ctx
            p, q = subst(sb[0], ms), subst(tb[0], mt)
            if not self.eq(p, q, ctx):
                more = self.invariants(si, fs[:n], p, [subst(sb[2 + 2 * k], ms) for k in range(n)], ctx)
                if more is None or not self.eq(p, q, more):
                    continue
                at = more
            for k in range(n):
                # what a loop leaves counts where it leaves, what it carries on where it carries on
                x, y = (subst(sb[z], ms) for z in (1 + 2 * k, 2 + 2 * k))
                u, v = (subst(tb[z], mt) for z in (1 + 2 * perm[k], 2 + 2 * perm[k]))
                if not (self.eq(x, u, at) or self.eq(tm.ite(p, x, tm.ZERO), tm.ite(p, u, tm.ZERO), at)):
                    break
                if not (self.eq(y, v, at) or self.eq(tm.ite(p, tm.ZERO, y), tm.ite(p, tm.ZERO, v), at)):
                    break
            else:
                yield perm


def gated(t):
    return t.op in ("list", "dict") and any(x.op == "guarded" for x in t.args)


def choices(ts):
    """Gates of the choices inside terms, outside binders."""
    return {y.args[0] for t in ts if "ite" in t.ops for y in below(t) if y.op == "ite"}


def below(t):
    """Subterms outside binders."""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op != "bind":
            st.extend(children(x))
    return seen


def binders(t):
    return {x for x in below(t) if x.op != "bind" and any(y.op == "bind" for y in x.args)}


def equal(a, b):
    try:
        return Eq().eq(a, b)
    except (Spent, tm.TooBig, RecursionError):
        return None
