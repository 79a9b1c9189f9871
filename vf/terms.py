"""Hash-consed value-graph terms with a normal form.

A term is one node of the value graph the analysis builds for the program:
  * numeric nodes are polynomials with rational coefficients over atoms,
  * gated nodes (``ite``) are ordered decision diagrams over gate atoms (the gamma
    nodes of gated SSA), so two gatings that decide alike share one node,
  * everything else is an operator applied to argument nodes.
Nothing is evaluated numerically and nothing is handed to a solver: two program
points carry the same value when normalisation gives them the same node.
"""
import hashlib
import os as _os
import time as _time
import sys
from fractions import Fraction as Fr

sys.setrecursionlimit(20000)

_INTERN = {}
_COUNT = [0]


class TooBig(Exception):
    pass


class T:
    __slots__ = ("op", "args", "attr", "ty", "dig", "hb", "fv", "sz", "ops", "__weakref__")

    def __repr__(self):
        return show(self, 6)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise RuntimeError("term used as bool")


def children(t):
    if t.op == "poly":
        out = []
        for _, m in t.attr:
            for a, _e in m:
                out.append(a)
        return out
    return t.args


# operators whose arguments form a set or a bag: kept sorted however the node comes about
_COMM = frozenset(("minlen", "cvmax", "fmin", "fmax", "BitAnd", "BitOr", "BitXor"))


def _node(op, args=(), attr=None, ty=("?", None)):
    if op == "eq?" and len(args) == 2 and args[1].dig < args[0].dig:
        args = (args[1], args[0])
    elif op in _COMM and len(args) > 1:
        args = tuple(sorted(args, key=lambda t: t.dig))
    key = (op, args, attr)
    r = _INTERN.get(key)
    if r is not None:
        if r.ty == ("?", None) and ty != ("?", None):
            r.ty = ty
        return r
    t = T.__new__(T)
    t.op, t.args, t.attr, t.ty = op, args, attr, ty
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())
    if op == "poly":
        for c, m in attr:
            h.update(("|%s" % c).encode())
            for a, e in m:
                h.update(a.dig)
                h.update(("^%s" % e).encode())
        ch = children(t)
    else:
        h.update(repr(attr).encode())
        for a in args:
            h.update(a.dig)
        ch = args
    t.dig = h.digest()
    hb = 0
    fv = frozenset()
    sz = 1
    ops = frozenset((op,))
    for a in ch:
        if a.hb > hb:
            hb = a.hb
        if a.fv:
            fv = fv | a.fv
        sz += a.sz
        ops = ops | a.ops
    if op == "fresh":
        fv = frozenset((attr,))
    if op == "bind":
        hb = max(hb, attr)
    t.hb, t.fv, t.sz, t.ops = hb, fv, sz, ops
    if sz > 10**40:
        raise TooBig("term size")
    _COUNT[0] += 1
    if not _COUNT[0] & 1023:
        _budget()
    _INTERN[key] = t
    return t


_START = _time.monotonic()
_LIMIT = [3_000_000, _START + 600]      # terms and time at which the current case gives up


def _budget():
    """Stop a case that outgrows its share of memory or time: it is then undecided."""
    if _COUNT[0] > _LIMIT[0]:
        raise TooBig("too many terms")
    if _time.monotonic() > _LIMIT[1]:
        raise TooBig("out of time")


# ------------------------------------------------------------------ constants
def const(v):
    """Terms of Python constants."""
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        ty = ("bool", 0) if isinstance(v, bool) else ("none", None) if v is None else ("str", 0)
        return _node("c", (), (type(v).__name__, v), ty)
    if isinstance(v, (int, Fr)):
        return num(v)
    if isinstance(v, float):
        if v != v:
            return _node("c", (), ("nan", None), ("num", 0))
        if v in (float("inf"), float("-inf")):
            p = _node("c", (), ("inf", None), ("num", 0))
            return p if v > 0 else neg(p)
        return num(Fr(repr(v)))
    raise TypeError(v)


def num(v):
    v = Fr(v)
    return _node("poly", (), ((v, ()),) if v else (), ("num", 0))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t.op == "poly" and (not t.attr or (len(t.attr) == 1 and not t.attr[0][1]))


def num_val(t):
    return t.attr[0][0] if t.attr else Fr(0)


def is_const(t):
    return t.op == "c" or is_num(t)


def py_of(t):
    """Host constant of a constant term (or raise)."""
    if t.op == "c":
        if t.attr[0] == "nan":
            return float("nan")
        if t.attr[0] == "inf":
            return float("inf")
        return t.attr[1]
    if is_num(t):
        v = num_val(t)
        return int(v) if v.denominator == 1 else float(v)
    raise ValueError


# ------------------------------------------------------------------ symbols
_FRESH = [int(_os.environ.get("VF_FRESH", "0")), ""]


SYMTY = {"float": ("num", 0), "int": ("num", 0), "numlist": ("list", None), "pairlist": ("list", None), "vlist": ("list", ("arr", 2)),
         "numdict": ("dict", None), "confn": ("fn", None), "objfn": ("fn", None), "numfn": ("fn", None), "arrfn": ("fn", None), "listfn": ("fn", None)}


def sym(name, kind="?", ndim=None):
    return _node("sym", (), (name, kind, ndim), SYMTY.get(kind, (kind, ndim)))


FRESH = {}


def fresh(kind="num", ndim=0, tag="i"):
    _FRESH[0] += 1
    a = "%s%d%s" % (tag, _FRESH[0], _FRESH[1])
    FRESH[a] = r = _node("fresh", (), a, (kind, ndim))
    return r


# ------------------------------------------------------------------ gates / decision diagrams
STRUCT = {"tuple", "list", "dict", "guarded", "problem", "objv", "pair", "kwargs", "odict"}


_FAM = {}


def family(a):
    """A sign atom as q > t or q < t: (digest of q, t, +1 or -1)."""
    r = _FAM.get(a)
    if r is None:
        p = a.args[0]
        d = 1 if a.op == "pos?" else -1
        if p.op == "poly" and () in as_mons(p):
            m = dict(as_mons(p))
            c = m.pop(())
            k = m[max(m, key=lambda x: tuple((y.dig, e) for y, e in x))]
            q = from_mons({x: v / k for x, v in m.items()})
            r = (q.dig, -c / k, d if k > 0 else -d)
        elif p.op == "poly":
            m = as_mons(p)
            k = m[max(m, key=lambda x: tuple((y.dig, e) for y, e in x))]
            r = (from_mons({x: v / k for x, v in m.items()}).dig, Fr(0), d if k > 0 else -d)
        else:
            r = (p.dig, Fr(0), d)
        _FAM[a] = r
    return r


def atom_key(a):
    if a.op in ("neg?", "pos?"):
        f = family(a)
        return (1, f[0], f[1], a.op)
    return (0 if a.op == "isnone" else 1, a.dig, Fr(0), a.op)


def implied(a, val, b):
    """Truth of sign atom b where sign atom a has the given truth, None when open."""
    if a.op not in ("neg?", "pos?") or b.op not in ("neg?", "pos?"):
        return None
    qa, t, da = family(a)
    qb, s, db = family(b)
    if qa != qb:
        return None
    strict = val
    if not val:
        da = -da
    if da == db:
        if (t - s) * da > 0 or (t == s and strict):
            return True
    elif (t - s) * da >= 0:
        return False
    return None


def is_ite(t):
    return t.op == "ite"


_ITE = {}
_base_ite = 0


def new_case(name=""):
    """Start the gate budget and the naming of the next case."""
    global _base_ite
    _FRESH[:] = [int(_os.environ.get("VF_FRESH", "0")), name]
    if len(_ITE) > 1_000_000:
        _ITE.clear()
    _base_ite = len(_ITE)
    now = _time.monotonic()
    _LIMIT[:] = [_COUNT[0] + 1_500_000, now + (90 if now - _START < 400 else 10 if now - _START < 650 else 1)]


_DEPTH = [0]


def contains(t, x):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y not in seen:
            seen.add(y)
            st.extend(children(y))
    return False


def _tie(a, b, p):
    """a and b agree where p is zero."""
    if a.op != "ite" and b.op != "ite":
        return _proportional(a, b, p)
    if a.ty[0] != "num" or b.ty[0] != "num" or a.sz + b.sz > 2000:
        return False
    la, lb = _few(a, 6), _few(b, 6)
    if la is None or lb is None:
        return False
    if any(x.op in ("neg?", "pos?") and x.args[0] is p for t in (a, b) for x in gate_atoms(t)):
        return False

    def go(x, y):
        if x is y:
            return True
        if x.op == "ite" and (y.op != "ite" or atom_key(x.args[0]) <= atom_key(y.args[0])):
            g = x.args[0]
            return go(x.args[1], cof(y, g, True)) and go(x.args[2], cof(y, g, False))
        if y.op == "ite":
            g = y.args[0]
            return go(cof(x, g, True), y.args[1]) and go(cof(x, g, False), y.args[2])
        return _proportional(x, y, p)

    return go(a, b)


def _few(t, n):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        else:
            out.add(x)
            if len(out) > n or x.op in STRUCT:
                return None
    return out


def _proportional(a, b, p):
    """a - b is a multiple of p."""
    if a.ty[0] not in ("num", "?") or b.ty[0] not in ("num", "?") or a.op in STRUCT or b.op in STRUCT:
        return False
    if a.op == "c" and a.attr[0] not in ("num", "bool") or b.op == "c" and b.attr[0] not in ("num", "bool"):
        return False
    ma, mb, mp = (as_mons(x) for x in (a, b, p))
    if len(ma) + len(mb) < len(mp):
        return False
    d = dict(ma)
    for m, c in mb.items():
        d[m] = d.get(m, 0) - c
    d = {m: c for m, c in d.items() if c}
    if not d or set(d) != set(mp):
        return False
    k = None
    for m, c in d.items():
        r = c / mp[m]
        if k is None:
            k = r
        elif k != r:
            return False
    return True


_UNDEF = {}


def undef(t, x):
    """t where x is None: the sign of a sum in which x is a term does not exist, so that gate is not reached."""
    if t.op != "ite":
        return t
    key = (t, x)
    r = _UNDEF.get(key)
    if r is None:
        c, a, b = t.args
        if c.op in ("neg?", "pos?") and any(y is x for m in as_mons(c.args[0]) for y, e in m):
            r = undef(b, x)
        else:
            na, nb = undef(a, x), undef(b, x)
            r = t if na is a and nb is b else _raw_ite(c, na, nb)
        _UNDEF[key] = r
    return r


def _raw_ite(atom, a, b):
    if atom.op == "isnone":
        a = undef(a, atom.args[0])
        if a is b:
            return a
    if atom.op in ("neg?", "pos?"):
        while a.op == "ite":
            v = implied(atom, True, a.args[0])
            if v is None:
                break
            a = a.args[1] if v else a.args[2]
        while b.op == "ite":
            v = implied(atom, False, b.args[0])
            if v is None:
                break
            b = b.args[1] if v else b.args[2]
    if atom.op == "neg?" and b.op == "ite" and b.args[0].op == "pos?" and b.args[0].args[0] is atom.args[0] \
            and b.args[1] is not b.args[2] and b.args[1].ty[0] == "num" == b.args[2].ty[0] \
            and atom.args[0].op not in ("poly", "c") and atom.args[0] is not b.args[1] and contains(b.args[1], atom.args[0]) \
            and subst(b.args[1], {atom.args[0]: ZERO}) is b.args[2]:
        b = b.args[1]                           # the value at zero is what the formula gives there
    if a is b:
        return a
    if atom.op == "neg?" and _tie(a, b, atom.args[0]):
        # both sides agree at the boundary: one spelling of the tie
        atom, a, b = _node("pos?", atom.args, None, ("bool", 0)), b, a
    if atom.op == "any?" and atom.args[0].op == "isnull" and "dropna" in a.ops:
        m = _dropna_of(atom.args[0].args[0], a)
        if m and subst(a, m) is b:
            return a                            # nothing to drop otherwise
    if a.op in STRUCT and a.op == b.op and a.attr == b.attr and len(a.args) == len(b.args) and a.args and a.op not in ("guarded",):
        return mk(a.op, tuple(_raw_ite_ord(atom, x, y) for x, y in zip(a.args, b.args)), a.attr, a.ty)
    return _node("ite", (atom, a, b), None, _join_ty(a.ty, b.ty))


_DROP = {}


def _dropna_of(x, a):
    """{dropna(X): X} for the frame X whose missing values x tests, if the term a uses it."""
    key = (x, a)
    if key in _DROP:
        return _DROP[key]
    out, seen, st = {}, set(), [a]
    while st:
        t = st.pop()
        if t in seen or "dropna" not in t.ops:
            continue
        seen.add(t)
        if t.op == "dropna" and len(t.args) == 1 and not t.attr:
            f = t.args[0]
            if f is x or (x.op == "values" and x.args[0] is f) or (f.op == "DataFrame" and f.args[0] is x):
                out[t] = f
        st.extend(children(t))
    _DROP[key] = out
    return out


def _raw_ite_ord(atom, x, y):
    return ite(_node("ite", (atom, TRUE, FALSE), None, ("bool", 0)), x, y)


def _join_ty(a, b):
    if a == b:
        return a
    if a[0] == "none":
        return ("?", None)
    if b[0] == "none":
        return ("?", None)
    k = a[0] if a[0] == b[0] else _join_kind(a[0], b[0])
    n = a[1] if a[1] == b[1] else None
    return (k, n)


def _join_kind(a, b):
    o = ["bool", "num", "arr", "ser", "df", "cvx"]
    if a in o and b in o:
        return o[max(o.index(a), o.index(b))]
    return "?"


def cof(t, atom, val):
    """Cofactor of a diagram with respect to a gate atom."""
    if t.op != "ite":
        if t.op in STRUCT and t.args and "ite" in t.ops:
            na = tuple(cof(x, atom, val) for x in t.args)
            if all(x is y for x, y in zip(na, t.args)):
                return t
            return mk(t.op, na, t.attr, t.ty)
        return t
    c, a, b = t.args
    if c is atom:
        r = a if val else b
        return cof(r, atom, val) if r.op == "ite" else r
    # correlated sign atoms
    if c.op in ("neg?", "pos?") and atom.op in ("neg?", "pos?") and c.args[0] is atom.args[0] and val:
        return cof(b, atom, val)
    k, ka = atom_key(c), atom_key(atom)
    if k > ka and not (c.op in ("neg?", "pos?") and atom.op in ("neg?", "pos?") and c.args[0] is atom.args[0]):
        if not (a.op in STRUCT or b.op in STRUCT or _has_struct_leaf(t)):
            return t
    na, nb = cof(a, atom, val), cof(b, atom, val)
    if na is a and nb is b:
        return t
    return _raw_ite(c, na, nb)


_HSL = {}


def _has_struct_leaf(t):
    r = _HSL.get(t)
    if r is None:
        if t.op == "ite":
            r = _has_struct_leaf(t.args[1]) or _has_struct_leaf(t.args[2])
        else:
            r = t.op in STRUCT
        _HSL[t] = r
    return r


def ite(c, a, b):
    """Gamma node: if c then a else b; c is a boolean diagram."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _ITE.get(key)
    if r is not None:
        return r
    if c.op != "ite":
        c = truth_atom(c)
        if c.op != "ite":
            return ite(c, a, b)
    if a.op in STRUCT and b.op == a.op and a.attr == b.attr and len(a.args) == len(b.args) and a.args and a.op != "guarded":
        r = mk(a.op, tuple(ite(c, x, y) for x, y in zip(a.args, b.args)), a.attr, a.ty)
        _ITE[key] = r
        return r
    tops = [c.args[0]]
    if a.op == "ite":
        tops.append(a.args[0])
    if b.op == "ite":
        tops.append(b.args[0])
    top = min(tops, key=atom_key)
    hi = ite(cof(c, top, True), cof(a, top, True), cof(b, top, True))
    lo = ite(cof(c, top, False), cof(a, top, False), cof(b, top, False))
    r = _raw_ite(top, hi, lo)
    if len(_ITE) - _base_ite > 2_000_000:
        raise TooBig("gates")
    _ITE[key] = r
    return r


def is_parts(t):
    return t.op in ("spread", "seg") or t.op == "ite" and is_parts(t.args[1]) and is_parts(t.args[2])


def batom(t):
    """A boolean atom as a diagram."""
    return _node("ite", (t, TRUE, FALSE), None, ("bool", 0))


def truth_atom(t):
    if t is TRUE or t is FALSE:
        return t
    if t.op == "ite":
        return t
    return batom(t)


def b_not(c):
    return ite(c, FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def gate_atoms(t, acc=None, deep=False):
    acc = set() if acc is None else acc
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "ite":
            acc.add(x.args[0])
            go(x.args[1])
            go(x.args[2])
        elif x.op in STRUCT and "ite" in x.ops:
            for y in x.args:
                go(y)

    go(t)
    return acc


def units(pc):
    """Literals implied by a boolean diagram (its forced spine)."""
    out = {}
    changed = True
    while changed and pc.op == "ite":
        changed = False
        c, a, b = pc.args
        if a is FALSE:
            out[c] = False
            pc = b
            changed = True
        elif b is FALSE:
            out[c] = True
            pc = a
            changed = True
        else:
            # look for literals forced below
            for at in sorted(gate_atoms(pc), key=atom_key):
                if cof(pc, at, True) is FALSE:
                    out[at] = False
                    pc = cof(pc, at, False)
                    changed = True
                    break
                if cof(pc, at, False) is FALSE:
                    out[at] = True
                    pc = cof(pc, at, True)
                    changed = True
                    break
    return out


def restrict(t, lits):
    for a, v in lits.items():
        if t.op == "ite" or t.op in STRUCT:
            t = cof(t, a, v)
    return t


def leaves(t):
    """(condition, leaf) pairs of a diagram."""
    out = {}

    def go(x, c):
        if x.op == "ite":
            go(x.args[1], b_and(c, batom(x.args[0])))
            go(x.args[2], b_and(c, b_not(batom(x.args[0]))))
        else:
            out[x] = b_or(out.get(x, FALSE), c)

    go(t, TRUE)
    return out


# ------------------------------------------------------------------ polynomials
def as_mons(t):
    if t.op == "poly":
        return dict((m, c) for c, m in t.attr)
    return {((t, Fr(1)),): Fr(1)}


def _mon_key(m):
    return tuple((a.dig, e) for a, e in m)


def _kind_rank(k):
    o = {"bool": 0, "num": 0, "?": 1, "list": 2, "arr": 2, "ser": 3, "df": 4, "cvx": 5}
    return o.get(k, 1)


def _poly_ty(mons):
    kind, nd = "num", 0
    for m in mons:
        for a, _ in m:
            k, n = a.ty
            if k == "bool":
                k = "num"
            if _kind_rank(k) > _kind_rank(kind):
                kind = k
            if k == "list":
                kind = "arr"
            if n is None:
                nd = None if nd is None or k not in ("num",) else nd
            elif nd is not None:
                nd = max(nd, n)
    return (kind, nd)


def from_mons(mons):
    mons = {m: c for m, c in mons.items() if c}
    if len(mons) == 1:
        (m, c), = mons.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(mons) > 4000:
        raise TooBig("poly")
    items = sorted(mons.items(), key=lambda mc: _mon_key(mc[0]))
    return _node("poly", (), tuple((c, m) for m, c in items), _poly_ty(mons))


def _mon_mul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    pows = {}
    for x in list(d):
        if x.op == "pow" and d[x]:
            pows.setdefault(x.args[0], []).append(x)
    extra = None
    for base, xs in pows.items():
        if len(xs) > 1:
            e = ZERO
            for x in xs:
                e = add(e, mul(x.args[1], num(d.pop(x))))
            q = power(base, e)
            extra = q if extra is None else mul(extra, q)
    for x, e0 in a:
        if x.op != "grp" or e0.denominator == 1:
            continue
        e = Fr(d[x])
        if e.denominator == 1 and e:
            # a root raised back to a whole power is that power of the sum itself
            q = powr(x.args[0], d.pop(x))
            extra = q if extra is None else mul(extra, q)
    for x in d:
        if x.op == "ones" and x.ty[1] == 2:
            _absorb_ones(d)
            break
    m = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: (xe[0].dig, xe[1])))
    return m, extra


def side(a):
    """Shape class of a two-dimensional factor: one column, one row, or full."""
    if a.ty[1] != 2:
        return None
    if a.op == "col":
        return "col"
    if a.op == "T" and a.args[0].op == "col":
        return "row"
    return "full"


def _absorb_ones(d):
    """A matrix of ones only widens what it multiplies."""
    sides = {side(x) for x in d if d[x] and x.op != "ones"}
    os = [x for x in d if x.op == "ones" and x.ty[1] == 2]
    drop = "full" in sides or {"col", "row"} <= sides
    for k, x in enumerate(sorted(os, key=lambda t: t.dig)):
        d[x] = Fr(0) if drop or k else Fr(1)


def lift(f, *args):
    """Apply a leaf-level constructor pointwise over gated arguments."""
    tops = [a.args[0] for a in args if a.op == "ite"]
    if not tops:
        return f(*args)
    top = min(tops, key=atom_key)
    hi = lift(f, *[cof(a, top, True) for a in args])
    lo = lift(f, *[cof(a, top, False) for a in args])
    if hi is lo:
        return hi
    return ite(batom(top), hi, lo)


def _numify(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


_ADD = {}
_MUL = {}


def add(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = _add2(r, t)
    return r


def _add2(a, b):
    key = (a, b)
    r = _ADD.get(key)
    if r is None:
        r = lift(_add_leaf, a, b) if (a.op == "ite" or b.op == "ite") else _add_leaf(a, b)
        _ADD[key] = r
        _ADD[(b, a)] = r
    return r


def _add_leaf(a, b):
    a, b = _numify(a), _numify(b)
    ma, mb = as_mons(a), as_mons(b)
    out = dict(ma)
    for m, c in mb.items():
        out[m] = out.get(m, 0) + c
    return _ratnorm(out)


def _ratnorm(mons):
    """Put a sum with group denominators over the common denominator."""
    dens = {}
    for m in mons:
        for a, e in m:
            if a.op == "grp" and e < 0:
                dens[a] = min(dens.get(a, 0), e)
    if not dens or len(mons) > 60:
        return from_mons(mons)
    D = tuple(sorted(((a, -e) for a, e in dens.items()), key=lambda x: x[0].dig))
    if any(e.denominator != 1 or e > 3 for _, e in D):
        return from_mons(mons)
    N = {}
    for m, c in mons.items():
        rest = dict(D)
        keep = []
        for a, e in m:
            if a in rest:
                rest[a] = rest[a] + e
            else:
                keep.append((a, e))
        terms = {tuple(keep): c}
        for g, e in rest.items():
            for _ in range(int(e)):
                terms = _mul_mons(terms, as_mons(g.args[0]))
                if len(terms) > 300:
                    return from_mons(mons)
        for mm, cc in terms.items():
            N[mm] = N.get(mm, 0) + cc
    N = {m: c for m, c in N.items() if c}
    if not N:
        return ZERO
    D = dict(D)
    for g in list(D):
        while D[g] > 0:
            q = _divide(N, as_mons(g.args[0]))
            if q is None:
                break
            N = q
            D[g] -= 1
    inv = tuple(sorted(((g, -e) for g, e in D.items() if e), key=lambda x: x[0].dig))
    out = {}
    for m, c in N.items():
        mm, ex = _mon_mul(m, inv)
        if ex is not None:
            return from_mons(mons)
        out[mm] = out.get(mm, 0) + c
    return from_mons(out)


def _divide(N, P):
    """N / P when N is a monomial multiple of P, else None (multi-step exact division)."""
    lead = min(P, key=_mon_key)
    q = {}
    rem = dict(N)
    for _ in range(40):
        rem = {m: c for m, c in rem.items() if c}
        if not rem:
            return q
        hit = False
        for m in sorted(rem, key=_mon_key):
            d = dict(m)
            ok = True
            for a, e in lead:
                if a not in d or (e > 0 and d[a] < e):
                    ok = False
                    break
            if not ok:
                continue
            f, ex = _mon_mul(m, tuple((a, -e) for a, e in lead))
            if ex is not None:
                return None
            c = rem[m] / P[lead]
            nrem = dict(rem)
            for pm, pc in P.items():
                x, ex = _mon_mul(f, pm)
                if ex is not None:
                    return None
                nrem[x] = nrem.get(x, 0) - c * pc
            q[f] = q.get(f, 0) + c
            rem = nrem
            hit = True
            break
        if not hit:
            return None
    return None


def _mul_mons(ma, mb):
    out = {}
    if len(ma) * len(mb) > 20000:
        raise TooBig("product")
    for m1, c1 in ma.items():
        for m2, c2 in mb.items():
            m, ex = _mon_mul(m1, m2)
            if ex is None:
                out[m] = out.get(m, 0) + c1 * c2
            else:
                for m3, c3 in as_mons(ex).items():
                    mm, ex2 = _mon_mul(m, m3)
                    out[mm] = out.get(mm, 0) + c1 * c2 * c3
    return out


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = _mul2(r, t)
    return r


def _mul2(a, b):
    key = (a, b)
    r = _MUL.get(key)
    if r is None:
        r = lift(_mul_leaf, a, b) if (a.op == "ite" or b.op == "ite") else _mul_leaf(a, b)
        _MUL[key] = r
        _MUL[(b, a)] = r
    return r


def _mul_leaf(a, b):
    a, b = _numify(a), _numify(b)
    return _ratnorm({m: c for m, c in _mul_mons(as_mons(a), as_mons(b)).items() if c})


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def content(t):
    """t = c * m * p with p primitive (leading coefficient 1)."""
    mons = as_mons(t)
    if not mons:
        return Fr(0), (), ONE
    common = None
    for m in mons:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) if e > 0 and d[a] > 0 else (max(e, d[a]) if e < 0 and d[a] < 0 else 0)
                      for a, e in common.items() if a in d}
            common = {a: e for a, e in common.items() if e}
    # negative powers: take the most negative so that what is left is polynomial
    negs = {}
    for m in mons:
        for a, e in m:
            if e < 0:
                negs[a] = min(negs.get(a, 0), e)
    common = dict(common or {})
    common.update(negs)
    cm = tuple(sorted(common.items(), key=lambda x: (x[0].dig, x[1])))
    inv = tuple((a, -e) for a, e in cm)
    out = {}
    for m, c in mons.items():
        mm, ex = _mon_mul(m, inv)
        out[mm] = out.get(mm, 0) + c
    lead = min(out, key=_mon_key)
    c = out[lead]
    out = {m: x / c for m, x in out.items()}
    return c, cm, from_mons(out)


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def powr(t, r):
    return lift(lambda x: _powr(x, Fr(r)), t)


def _powr(t, r):
    t = _numify(t)
    if r == 0:
        return ONE
    if r == 1:
        return t
    if is_num(t):
        v = num_val(t)
        if r.denominator == 1:
            if v == 0 and r < 0:
                return _node("c", (), ("inf", None), ("num", 0))
            if abs(r) <= 64:
                return num(v ** int(r))
        elif v >= 0:
            p, q = _iroot(v.numerator, r.denominator), _iroot(v.denominator, r.denominator)
            if p is not None and q is not None and (p or r > 0):
                return num(Fr(p, q) ** r.numerator)
        return _node("pow", (t, num(r)), None, ("num", 0))
    mons = as_mons(t)
    if len(mons) == 1:
        (m, c), = mons.items()
        if r.denominator == 1:
            out = ONE
            d = {a: e * r for a, e in m}
            mm = []
            for a, e in d.items():
                if a.op == "pow":
                    out = mul(out, power(a.args[0], mul(a.args[1], num(e))))
                elif a.op == "grp" and e.denominator == 1 and (e / r).denominator != 1:
                    out = mul(out, powr(a.args[0], e))
                else:
                    mm.append((a, e))
            mm = tuple(sorted(mm, key=lambda x: (x[0].dig, x[1])))
            return mul(out, from_mons({mm: c ** int(r)}))
        if c > 0:
            coef = _powr(num(c), r)
            out = coef
            for a, e in m:
                if e.denominator == 1 and e % 2 == 0:
                    base = app("abs", a)
                    out = mul(out, from_mons({((base, e * r),): Fr(1)}) if base.op not in ("poly", "ite") else powr(base, e * r))
                else:
                    out = mul(out, from_mons({((a, e * r),): Fr(1)}))
            return out
        return from_mons({((_node("grp", (t,), None, t.ty), r),): Fr(1)})
    if r.denominator == 1 and 0 < r <= 4:
        out = t
        for _ in range(int(r) - 1):
            out = mul(out, t)
        return out
    if r.denominator == 1:
        c, m, p = content(t)
        outm = tuple(sorted(((a, e * r) for a, e in m), key=lambda x: (x[0].dig, x[1])))
        if p.op == "poly" and len(p.attr) > 1:
            g = _node("grp", (p,), None, p.ty)
            return mul(from_mons({outm: c ** int(r)}), from_mons({((g, r),): Fr(1)}))
        return mul(from_mons({outm: c ** int(r)}), _powr(p, r))
    c, m, p = content(t)
    if c > 0 and not m:
        cr = _powr(num(c), r)
        if is_num(cr):
            return mul(cr, from_mons({((_node("grp", (p,), None, t.ty), r),): Fr(1)}))
    return from_mons({((_node("grp", (t,), None, t.ty), r),): Fr(1)})


def power(b, e):
    return lift(_power_leaf, b, e)


def _power_leaf(b, e):
    e = _numify(e)
    if is_num(e):
        v = num_val(e)
        return _powr(b, v)
    if is_num(b) and num_val(b) == 1:
        return ONE
    if b.op == "pow":
        return power(b.args[0], mul(b.args[1], e))
    if b.op == "exp":
        return app("exp", mul(b.args[0], e))
    ty = _poly_ty({((b, Fr(1)), (e, Fr(1))): 1})
    return _node("pow", (b, e), None, ty)


def div(a, b):
    return mul(a, powr(b, -1))


def sqrt(a):
    return powr(a, Fr(1, 2))


# ------------------------------------------------------------------ comparisons
def _prim_sign(p):
    """(p', s): p == |c| * s * p' with p' having positive leading coefficient."""
    mons = as_mons(p)
    lead = min(mons, key=_mon_key)
    # prefer a nonconstant lead
    nz = [m for m in mons if m]
    if nz:
        lead = min(nz, key=_mon_key)
    c = mons[lead]
    s = 1 if c > 0 else -1
    return from_mons({m: x / abs(c) * s for m, x in mons.items()}), s


def _positive(t):
    """Sizes of the arrays and frames a caller passes: nothing is specified for empty ones."""
    if t.op in ("len", "dim1"):
        x = t.args[0]
        while x.op in ("values", "columns", "index", "T") and x.args:
            x = x.args[0]
        return x.op == "sym" and x.ty[0] in ("ser", "df", "arr")
    return False


def cmp0(p, rel):
    """Diagram for p rel 0 (scalar); rel in < <= == != > >=."""
    return lift(lambda x: _cmp0(x, rel), p)


_NONNEG = {}


def _nonneg(a):
    r = _NONNEG.get(a)
    if r is None:
        if a.op in ("len", "abs") or _positive(a):
            r = True
        elif a.op == "sumover":
            _NONNEG[a] = False
            b = a.args[-1]
            r = b.op == "bind" and b.args[0].ty[0] in ("num", "?") and cmp0(b.args[0], ">=") is TRUE
        else:
            r = False
        _NONNEG[a] = r
    return r


EXTREME = [None]  # set by lib: elements of the argument of a one-dimensional min or max


def _split_extreme(p, rel):
    """min(x) < r  iff  some element is < r, and so on."""
    cand = None
    for m, c in as_mons(p).items():
        for a, e in m:
            if a.op in ("min", "max") and len(a.args) == 1 and a.attr is None:
                if len(m) > 1 or e != 1 or cand is not None:
                    return None
                cand = (a, c)
    if cand is None or rel in ("==", "!="):
        return None
    a, c = cand
    low = (a.op == "min") == (c > 0)  # p is the smallest of its elementwise versions
    f = EXTREME[0](a.args[0])
    if f is None:
        return None
    rest = sub(p, mul(num(c), a))
    some = (low and rel in ("<", "<=")) or (not low and rel in (">", ">="))

    def at(x):
        d = cmp0(add(mul(num(c), x), rest), rel)
        return d if some else b_not(d)

    r = f(at)
    return r if r is None or some else b_not(r)


def _less_one(q):
    """x when q is x - 1 for a count x."""
    if q.op == "poly" and len(q.attr) == 2:
        m = as_mons(q)
        if m.get(()) == -1:
            (x, c), = [(x, c) for x, c in m.items() if x]
            if c == 1 and len(x) == 1 and x[0][1] == 1 and x[0][0].op == "len":
                return x[0][0]
    return None


def _cmp0(p, rel):
    p = _numify(p)
    if is_num(p):
        v = num_val(p)
        return const({"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0, ">": v > 0, ">=": v >= 0}[rel])
    ms = as_mons(p)
    if len(ms) == 1:
        (m, c), = ms.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "c" and m[0][0].attr[0] == "inf":
            v = c
            return const({"<": v < 0, "<=": v <= 0, "==": False, "!=": True, ">": v > 0, ">=": v >= 0}[rel])
        if m and c != 0:
            sg = [2 if _positive(a) else 1 if (e.denominator == 1 and e % 2 == 0) or a.op in ("len", "abs") or _positive(a) else 0
                  for a, e in m]
            neg = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[rel] if c < 0 else rel
            if min(sg) == 2:
                return const(neg in (">", ">=", "!="))
            if min(sg) == 1 and neg in ("<", ">="):
                return const(neg == ">=")
            keep = tuple((a, e) for a, e in m if not (e < 0 and _nonneg(a)))
            if len(keep) < len(m):
                # dividing by a quantity that is never negative keeps the sign
                return cmp0(from_mons({keep: c}), rel)
    for m, c in ms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "c" and m[0][0].attr[0] == "inf":
            return const({"<": c < 0, "<=": c < 0, "==": False, "!=": True, ">": c > 0, ">=": c > 0}[rel])
    if "min" in p.ops or "max" in p.ops:
        r = _split_extreme(p, rel)
        if r is not None:
            return r
    q, s = _prim_sign(p)
    if s < 0:
        rel = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[rel]
    nonneg = q.op in ("len", "abs") 
    one = _less_one(q)
    if one is not None:
        n = b_not(batom(_node("pos?", (one,), None, ("bool", 0))))
    else:
        n = FALSE if nonneg else batom(_node("neg?", (q,), None, ("bool", 0)))
    g = batom(_node("pos?", (q,), None, ("bool", 0)))
    if rel == "<":
        return n
    if rel == ">":
        return g
    if rel == "<=":
        return b_not(g)
    if rel == ">=":
        return b_not(n)
    e = b_and(b_not(n), b_not(g))
    return e if rel == "==" else b_not(e)


# ------------------------------------------------------------------ generic application
SIMPL = {}
NOLIFT = {"sol", "optval", "status", "exc", "bind", "fold", "foldout", "writes", "wloop", "w", "cat", "seg"}


def app(op, *args, attr=None, ty=None):
    return mk(op, tuple(args), attr, ty)


def mk(op, args=(), attr=None, ty=None):
    """Smart constructor used everywhere (also when substituting)."""
    if op == "poly":
        raise ValueError
    if op == "ite":
        return ite(truth_atom(args[0]), args[1], args[2])
    if op == "c" or op in ("sym", "fresh"):
        return _node(op, (), attr, ty or ("?", None))
    if op == "grp" or op == "pow":
        if op == "grp":
            return args[0]
        return power(args[0], args[1])
    if op in ("neg?", "pos?"):
        d = cmp0(args[0], "<" if op == "neg?" else ">")
        return d
    if op not in STRUCT and op not in NOLIFT and any(a.op == "ite" for a in args):
        return lift(lambda *xs: _mk_leaf(op, tuple(xs), attr, ty), *args)
    return _mk_leaf(op, args, attr, ty)


def _mk_leaf(op, args, attr, ty):
    f = SIMPL.get(op)
    if f is not None:
        r = f(args, attr, ty)
        if r is not None:
            return r
    if ty is None:
        g = TYF.get(op)
        ty = g(args, attr) if g else ("?", None)
    return _node(op, args, attr, ty)


TYF = {}


def simpl(*ops):
    def deco(f):
        for o in ops:
            SIMPL[o] = f
        return f

    return deco


def typ(*ops):
    def deco(f):
        for o in ops:
            TYF[o] = f
        return f

    return deco


# ------------------------------------------------------------------ substitution
def subst(t, m, memo=None):
    """Replace terms (atoms) by terms, renormalising."""
    memo = {} if memo is None else memo
    keys = frozenset(k.attr for k in m if k.op == "fresh")
    allfresh = all(k.op == "fresh" for k in m)
    plain = all(v.hb == 0 for v in m.values())

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if allfresh and not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "poly":
            out = ZERO
            for c, mon in x.attr:
                p = num(c)
                for a, e in mon:
                    p = mul(p, powr(go(a), e))
                out = add(out, p)
            r = out
        elif not x.args:
            r = x
        elif x.op == "bind":
            nb = go(x.args[0])
            if nb is x.args[0]:
                r = x
            elif plain and nb.hb + 1 == x.attr:
                r = _node("bind", (nb,) + x.args[1:], x.attr, nb.ty)
            else:
                fs = [fresh(v.ty[0], v.ty[1], "i") for v in x.args[1:]]
                if plain:
                    r = bind(subst(nb, dict(zip(x.args[1:], fs))), *fs)
                else:
                    r = bind(subst(subst(x.args[0], dict(zip(x.args[1:], fs))), m), *fs)
        else:
            na = tuple(go(a) for a in x.args)
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            elif x.op == "ite":
                c = na[0]
                r = ite(truth_atom(c), na[1], na[2])
            else:
                r = mk(x.op, na, x.attr, x.ty if x.op not in TYF else None)
        memo[x] = r
        return r

    return go(t)


# ------------------------------------------------------------------ binders
def bind(body, *vs):
    """Close body over fresh variables: bind node with canonical bound names."""
    h = body.hb + 1
    mp = {v: _node("sym", (), ("$%d.%d" % (h, k), v.ty[0], v.ty[1]), v.ty) for k, v in enumerate(vs)}
    b = subst(body, mp)
    return _node("bind", (b,) + tuple(mp[v] for v in vs), h, body.ty)


def bvars(b):
    return b.args[1:]


def inst(b, *vals):
    return subst(b.args[0], dict(zip(b.args[1:], vals)))


def hoist(f, body, *vs):
    """Pull gates that do not depend on vs above a binder built by f(body)."""
    fvs = frozenset(v.attr for v in vs)
    if body.op == "ite":
        ats = sorted((a for a in gate_atoms(body) if not (a.fv & fvs)), key=atom_key)
        if ats:
            a = ats[0]
            return ite(batom(a), hoist(f, cof(body, a, True), *vs), hoist(f, cof(body, a, False), *vs))
    return f(body)


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if depth < 0:
        return "…"
    o = t.op
    if o == "c":
        return "inf" if t.attr[0] == "inf" else repr(t.attr[1])
    if o == "sym":
        return str(t.attr[0])
    if o == "fresh":
        return "~" + t.attr
    if o == "poly":
        if not t.attr:
            return "0"
        out = []
        for c, m in t.attr[:12]:
            fs = []
            for a, e in m:
                s = show(a, depth - 1)
                fs.append(s if e == 1 else "%s^%s" % (s, e if e.denominator == 1 else "(%s)" % e))
            cs = _dec(c)
            if fs:
                out.append("*".join(([] if c == 1 else ["-1" if c == -1 else cs]) + fs))
            else:
                out.append(cs)
        if len(t.attr) > 12:
            out.append("…")
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if o == "ite":
        return "[%s ? %s : %s]" % tuple(show(x, depth - 1) for x in t.args)
    if o == "bind":
        return "λ%s. %s" % (",".join(show(v) for v in t.args[1:]), show(t.args[0], depth - 1))
    if o == "neg?":
        return "%s<0" % show(t.args[0], depth - 1)
    if o == "pos?":
        return "%s>0" % show(t.args[0], depth - 1)
    at = ""
    if t.attr is not None and t.attr != ():
        at = "{%s}" % (t.attr,)
    return "%s%s(%s)" % (o, at, ", ".join(show(x, depth - 1) for x in t.args))


def _dec(c):
    if c.denominator == 1:
        return str(c.numerator)
    d = c.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    return ("%.12g" % float(c)) if d == 1 else str(c)


# ------------------------------------------------------------------ care-set simplification
_CON = {}


def constrain(f, c):
    """Simplify boolean diagram f knowing c (generalised cofactor)."""
    if c is TRUE or f.op != "ite":
        return f
    if c is FALSE:
        return f
    if c is f:
        return TRUE
    key = (f, c)
    r = _CON.get(key)
    if r is not None:
        return r
    top = min((x.args[0] for x in (f, c) if x.op == "ite"), key=atom_key)
    c1, c0 = cof(c, top, True), cof(c, top, False)
    if c1 is FALSE:
        r = constrain(cof(f, top, False), c0)
    elif c0 is FALSE:
        r = constrain(cof(f, top, True), c1)
    else:
        f1, f0 = cof(f, top, True), cof(f, top, False)
        if f1 is f0:
            # f does not depend on top: quantify it out of the care set
            r = constrain(f1, b_or(c1, c0))
        else:
            r = ite(batom(top), constrain(f1, c1), constrain(f0, c0))
    _CON[key] = r
    return r


# ------------------------------------------------------------------ comparisons of a loop index with the ends of its domain
def _index_atoms(t, i, acc, seen):
    if t in seen or i.attr not in t.fv:
        return
    seen.add(t)
    if t.op in ("neg?", "pos?"):
        acc.append(t)
    for x in children(t):
        _index_atoms(x, i, acc, seen)


def in_domain(t, i, n):
    """t for an index 0 <= i < n: comparisons decided by the domain are decided, those near an end take one form."""
    if i.attr not in t.fv or i.attr in n.fv or not ("neg?" in t.ops or "pos?" in t.ops) or n.ty[0] not in ("num", "?"):
        return t
    acc = []
    _index_atoms(t, i, acc, set())
    rep = {}
    for a in acc:
        q = a.args[0]
        mons = as_mons(q)
        c = mons.get(((i, Fr(1)),))
        if c is None or abs(c) != 1:
            continue
        r = sub(q, mul(num(c), i))
        if i.attr in r.fv:
            continue
        span = sub(n, ONE)
        hi, lo = (add(r, span), r) if c > 0 else (r, sub(r, span))
        new = None
        if is_num(hi) and num_val(hi).denominator == 1:
            v = num_val(hi)
            if a.op == "pos?":
                new = FALSE if v <= 0 else b_not(cmp0(sub(q, ONE), "<"))
            elif v < 0:
                new = TRUE
        elif is_num(lo) and num_val(lo).denominator == 1:
            v = num_val(lo)
            if a.op == "neg?":
                new = FALSE if v >= 0 else b_not(cmp0(add(q, ONE), ">"))
            elif v > 0:
                new = TRUE
        if new is not None:
            rep[a] = new
    return subst(t, rep) if rep else t
