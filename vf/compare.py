"""Deciding one obligation: the value found in the code against the value demanded by the spec."""
from fractions import Fraction as Fr
from itertools import permutations, product

from . import lib, terms as tm
from .engine import mk_list
from .equiv import equal
from .terms import *  # noqa

# Operators with one normal form, or independent primitives: using one of these where the
# spec does not is a difference in behaviour, not another spelling.
ALWAYS = {
    "c", "poly", "sym", "ite", "neg?", "pos?", "bind", "fresh", "kwargs", "cvle", "cveq", "grp", "pow", "list", "tuple",
    "dict", "pair", "problem#", "guarded", "mut", "input", "event", "print",
}
# Shapes a rewrite of the same behaviour may introduce and the normal forms may not fold away: with one of these
# only on the code's side, the two values are not comparable.
SOFT = {
    "fold", "foldout", "wloop", "seg", "spread", "each", "someiter", "lam", "ap", "call", "callkey", "lib", "libobj", "gfx", "gfxpart", "dictof",
    "dget", "dkey", "exists", "rangelen", "minlen", "getitem", "getloc", "getiloc", "slice", "setattr", "setcol", "setdiag", "sumover", "seq",
    "method", "attr", "writes", "strm", "str", "format", "w", "append", "set", "argsort", "sort", "sorted", "setval", "amap2", "any?", "eq?", "in",
    "asarray", "Series", "DataFrame", "float", "item", "flat", "reshape", "columns", "index", "values", "col", "iloc", "squeeze", "tile", "truthy",
    "len", "count", "isnull", "arange", "zeros", "ones", "exc", "excv",
}
# never accepted as understood
OPAQUE = {"unknown", "opaque", "deep", "never"}


def deep_constrain(t, c):
    if c is TRUE:
        return t
    if t.op == "ite":
        return constrain(t, c)
    if t.op in STRUCT and "ite" in t.ops:
        na = tuple(deep_constrain(x, c) for x in t.args)
        if all(x is y for x, y in zip(na, t.args)):
            return t
        if t.op in ("list", "dict", "set"):
            return mk_list(list(na), t.op)
        return mk(t.op, na, t.attr, t.ty)
    return t


# ------------------------------------------------------------------ optimisation problems
def canon_con(c):
    """One-sided canonical form of a constraint term."""
    if c.op in ("cvle", "cveq") and len(c.args) == 2:
        a, b = (scalar_like(x) for x in c.args)
        d = sub(b, a)
        if d.op == "ite":
            return lift(lambda x: _prim(c.op, x), d)
        return _prim(c.op, d)
    return c


def scalar_like(t):
    """A constant vector is a scalar next to a vector."""
    def f(x):
        if x.op == "amap" and x.args[1].op == "bind":
            b = x.args[1]
            if is_num(b.args[0]):
                return b.args[0]
        if x.op == "poly":
            m = {}
            for c, mon in x.attr:
                for a, e in mon:
                    if a.op == "amap" and is_num(a.args[1].args[0]) and e == 1:
                        m[a] = a.args[1].args[0]
            if m:
                return subst(x, m)
        return x
    return lift(f, t)


def _prim(op, d):
    if is_num(d):
        return tm._node("con", (d,), op, ("con", None))
    q, s = tm._prim_sign(d)
    if op == "cvle":
        q = mul(num(s), q)
    return tm._node("con", (q,), op, ("con", None))


def con_items(t):
    """constraint list term -> {canonical item: condition}"""
    out = {}

    def add_item(c, g):
        if c.op == "guarded":
            return add_item(c.args[1], b_and(g, c.args[0]))
        if c.op == "ite":
            add_item(c.args[1], b_and(g, batom(c.args[0])))
            add_item(c.args[2], b_and(g, b_not(batom(c.args[0]))))
            return
        if c.op in ("list",):
            for x in c.args:
                add_item(x, g)
            return
        if c.op == "spread" and c.args[0].op in ("list",):
            return add_item(c.args[0], g)
        if c.op == "seg":
            b = c.args[1]
            body = b.args[0]
            its = con_items(body)
            if len(b.args) == 2:
                for k, gg in its.items():
                    k2 = tm._node("conseg", (c.args[0], b_bind(ite(gg, k, NONE) if gg is not TRUE else k, b)), None, ("con", None))
                    out[k2] = b_or(out.get(k2, FALSE), g)
                return
        c = canon_con(c)
        if c.op == "ite":
            return add_item(c, g)
        sp = split_convex(c)
        if sp is not None:
            for x in sp:
                add_item(tm._node("con", (x,), "cvle", ("con", None)), g)
            return
        out[c] = b_or(out.get(c, FALSE), g)

    add_item(t, TRUE)
    # trivially true constraints are no constraints
    for k in list(out):
        if k.op == "con" and is_num(k.args[0]):
            v = num_val(k.args[0])
            if (k.attr == "cvle" and v >= 0) or (k.attr == "cveq" and v == 0):
                del out[k]
    return out


def split_convex(c):
    """|x| <= u says x <= u and -x <= u; max(x, y) <= u bounds both."""
    if c.op != "con" or c.attr != "cvle" or c.args[0].op != "poly":
        return None
    d = c.args[0]  # d >= 0
    for k, m in d.attr:
        if k < 0 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            rest = sub(d, from_mons({m: k}))
            if contains_atom(rest, a):
                continue
            if a.op == "abs":
                return [add(rest, mul(num(k * s), a.args[0])) for s in (1, -1)]
            if a.op == "cvmax" and len(a.args) == 2:
                return [add(rest, mul(num(k), x)) for x in a.args]
    return None


def b_bind(body, b):
    return tm._node("bind", (body,) + b.args[1:], b.attr, body.ty)


def conset_term(items):
    ks = sorted(items, key=lambda t: t.dig)
    return tm._node("conset", tuple(k if items[k] is TRUE else tm._node("guarded", (items[k], k), None, ("?", None)) for k in ks),
                    None, ("con", None))


def problem_parts(p):
    obj, cons, kw = p.args
    cons = lift_list(cons)
    return {"objective": obj, "constraints": conset_term(cons), "solver": kw}


def lift_list(cons):
    if cons.op == "ite":
        a, b = lift_list(cons.args[1]), lift_list(cons.args[2])
        c = batom(cons.args[0])
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            out[k] = ite(c, a.get(k, FALSE), b.get(k, FALSE))
        return out
    return con_items(cons)


def prob_vars(p):
    vs = set()
    lib.vars_in(p, vs, set())
    return sorted(vs, key=lambda v: v.attr[0])


def rename_vars(t, mp):
    return subst(t, mp) if mp else t


def match_problems(pc, pw):
    """pc, pw: ordered lists of problem terms of code and spec.
    Returns (mapping for code terms, mapping for spec terms, [(code parts|None, spec parts|None)])."""
    mc, mw = {}, {}
    rows = []
    pc, pw = list(pc), list(pw)
    for k in range(max(len(pc), len(pw))):
        c = subst(pc[k], mc) if k < len(pc) else None
        w = subst(pw[k], mw) if k < len(pw) else None
        ph = tm._node("problem#", (), k, ("problem", None))
        if c is None or w is None:
            rows.append((problem_parts(c) if c is not None else None, problem_parts(w) if w is not None else None))
            if c is not None:
                mc[pc[k]] = mc[c] = ph
            if w is not None:
                mw[pw[k]] = mw[w] = ph
            continue
        vc, vw = prob_vars(c), prob_vars(w)
        best = None
        wp = problem_parts(w)
        used = set(mc.get(v) for v in vc)
        for perm in assignments(vc, vw, used):
            cp = problem_parts(subst(c, perm))
            score = (cp["objective"] is wp["objective"]) * 3 + conscore(cp["constraints"], wp["constraints"])
            if best is None or score > best[0]:
                best = (score, perm, cp)
        _, perm, cp = best
        for v, x in perm.items():
            mc[v] = x
        for v in vc:
            if v not in perm:
                mc.setdefault(v, tm._node("var", v.args, ("c", v.attr[0], v.attr[1:]), v.ty))
        rows.append((cp, wp))
        mc[pc[k]] = ph
        mc[subst(pc[k], {v: x for v, x in mc.items() if v.op == "var"})] = ph
        mc[c] = ph
        mw[pw[k]] = mw[w] = ph
    return mc, mw, rows


def conscore(a, b):
    bs = set(b.args)
    return sum(1 for x in a.args if x in bs) / (1.0 + max(len(a.args), len(b.args)))


def assignments(vc, vw, used):
    """Injective variable correspondences that keep the declared attributes and dimension."""
    vc = [v for v in vc if not (v.attr and v.attr[0] == "c")]
    groups = {}
    for v in vc:
        groups.setdefault((v.ty[1], v.attr[1]), ([], []))[0].append(v)
    for v in vw:
        groups.setdefault((v.ty[1], v.attr[1]), ([], []))[1].append(v)
    opts = []
    for g, (a, b) in groups.items():
        a = [v for v in a]
        if not a or not b:
            continue
        if len(b) > 5 or len(a) > 5:
            opts.append([list(zip(a, b))])
        elif len(a) <= len(b):
            opts.append([list(zip(a, x)) for x in permutations(b, len(a))])
        else:
            opts.append([list(zip(x, b)) for x in permutations(a, len(b))])
    for combo in product(*opts):
        yield {x: y for g in combo for x, y in g}


# ------------------------------------------------------------------ verdicts
def vocab(t):
    return t.ops


def kwtokens(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if t in seen:
        return acc
    seen.add(t)
    if t.op in ("callkey", "lib", "call", "method", "opaque"):
        acc.add((t.op, t.attr if isinstance(t.attr, str) else str(t.attr)))
    for c in children(t):
        kwtokens(c, acc, seen)
    return acc


def feasible(c):
    """A literal conjunction without contradictory sign atoms; c: boolean diagram."""
    return c is not FALSE


def zero_under(d, cond):
    """d (a difference of numbers) vanishes wherever cond holds, by the equalities cond implies."""
    if is_num(d):
        return num_val(d) == 0
    u = units(cond)
    eqs = []
    for a, v in u.items():
        if a.op == "neg?" and v is False:
            p = a.args[0]
            g = tm._node("pos?", (p,), None, ("bool", 0))
            if u.get(g) is False:
                eqs.append(p)
    for p in eqs:
        mons = as_mons(p)
        for m, c in mons.items():
            if len(m) == 1 and m[0][1] == 1:
                x = m[0][0]
                rest = from_mons({k: v for k, v in mons.items() if k != m})
                if contains_atom(rest, x):
                    continue
                s = subst(d, {x: mul(num(Fr(-1) / c), rest)})
                if is_num(s) and num_val(s) == 0:
                    return True
    return False


def contains_atom(t, x, seen=None):
    seen = set() if seen is None else seen
    if t is x:
        return True
    if t in seen:
        return False
    seen.add(t)
    return any(contains_atom(c, x, seen) for c in children(t))


def num_equal(a, b):
    """Equality of gated numeric terms up to boundary cases and common denominators."""
    try:
        d = sub(a, b)
    except Exception:
        return False
    for c, x in [(x, y) for y, x in leaves(d).items()] if False else [(c, l) for l, c in leaves(d).items()]:
        if is_num(x) and num_val(x) == 0:
            continue
        if c is FALSE:
            continue
        if cross_zero(x):
            continue
        # split the region into its minterms along sign atoms
        if all(zero_under(x, cc) for cc in cubes(c)):
            continue
        return False
    return True


def cubes(c, lits=None):
    out = []

    def go(x, acc):
        if len(out) > 200:
            return
        if x is TRUE:
            out.append(acc)
        elif x.op == "ite":
            go(x.args[1], b_and(acc, batom(x.args[0])))
            go(x.args[2], b_and(acc, b_not(batom(x.args[0]))))

    go(c, TRUE)
    return [x for x in out if x is not FALSE]


def cross_zero(d):
    """Poly with negative powers: multiply out the denominators."""
    if d.op != "poly":
        return False
    for _ in range(6):
        den = {}
        for c, m in d.attr:
            for a, e in m:
                if e < 0 and e.denominator == 1:
                    base = a
                    den[base] = min(den.get(base, Fr(0)), e)
        if not den:
            return is_num(d) and num_val(d) == 0
        k = ONE
        for a, e in den.items():
            x = a.args[0] if a.op == "grp" else a
            k = mul(k, powr(x, -e)) if a.op != "grp" else k
        out = ZERO
        for c, m in d.attr:
            p = num(c)
            mm = dict(m)
            for a, e in den.items():
                x = a.args[0] if a.op == "grp" else a
                r = mm.pop(a, Fr(0)) - e
                if r:
                    p = mul(p, powr(x, r))
            for a, e in mm.items():
                p = mul(p, from_mons({((a, e),): Fr(1)}))
            out = add(out, p)
        d = out
        if is_num(d):
            return num_val(d) == 0
        if d.op != "poly" or d.sz > 20000:
            return False
    return False


def same(a, b):
    if a is b:
        return True
    if a.ty[0] in ("num", "arr", "ser", "df", "bool") and b.ty[0] in ("num", "arr", "ser", "df", "bool"):
        if a.ty[0] == "bool" and b.ty[0] == "bool":
            return False
        if num_equal(a, b):
            return True
    if a.op == b.op and a.op in STRUCT and a.attr == b.attr and len(a.args) == len(b.args):
        return all(same(x, y) for x, y in zip(a.args, b.args))
    return False


def verdict(code, want, definite=(), tokens=True):
    """'ok' | 'violated' | 'undecided', reason"""
    if same(code, want):
        return "ok", ""
    e = equal(code, want)
    if e:
        return "ok", ""
    if e is None:
        return "undecided", "too large to compare"
    extra = (code.ops - want.ops - ALWAYS - set(definite)) & SOFT
    if code.ops & OPAQUE:
        return "undecided", "operations outside the analysed language"
    if extra:
        if split_violated(code, want, extra, definite):
            return "violated", ""
        return "undecided", "operators not comparable with the specification: " + ", ".join(sorted(extra))
    ex = kwtokens(code) - kwtokens(want) if tokens else ()
    if ex:
        return "undecided", "calls not comparable with the specification: %s" % sorted(ex)[:3]
    return "violated", ""


SIMPLE = {"sym", "len", "poly", "c", "neg?", "pos?", "grp"}


def regular(atom, val):
    """The branch atom = val leaves its inputs unconstrained enough that an algebraic difference
    inside it is a real one: an inequality over plain inputs that does not pin a length near zero."""
    if atom.op not in ("neg?", "pos?") or not atom.ops <= SIMPLE:
        return False
    p = atom.args[0]
    mons = as_mons(p)
    if "len" not in atom.ops:
        return True
    # k*len(x) + c  >< 0
    lin = [(m, k) for m, k in mons.items() if m]
    if len(lin) != 1 or len(lin[0][0]) != 1 or lin[0][0][0][1] != 1 or lin[0][0][0][0].op != "len":
        return False
    k, c = lin[0][1], mons.get((), Fr(0))
    bound = -c / k
    above = (k > 0) == (atom.op == "pos?") if val else (k > 0) != (atom.op == "pos?")
    return above or bound > 2


def split_violated(code, want, extra, definite, depth=3):
    """Case split along the gates only the code has; a branch over plain inputs in which the two sides
    are comparable and differ is a violation."""
    atoms = [a for a in gate_atoms(code) if a.ops & extra]
    for a in sorted(atoms, key=atom_key)[:6]:
        for v in (True, False):
            if not regular(a, v):
                continue
            c, w = cof(code, a, v), cof(want, a, v)
            if same(c, w) or c.ops & OPAQUE:
                continue
            if c.op == "ite" and any(x.op in ("neg?", "pos?") and x is not a and x.args[0] is a.args[0] for x in gate_atoms(c)):
                continue
            ex = (c.ops - w.ops - ALWAYS - set(definite)) & SOFT
            if not ex:
                if not (kwtokens(c) - kwtokens(w)):
                    return True
            elif depth and split_violated(c, w, ex, definite, depth - 1):
                return True
    return False


def first_diff(a, b, path=""):
    """Innermost differing subterm, for the report."""
    if a is b:
        return None
    if a.op == b.op and a.attr == b.attr and len(a.args) == len(b.args) and a.args:
        ds = [(k, x, y) for k, (x, y) in enumerate(zip(a.args, b.args)) if x is not y]
        if len(ds) == 1:
            return first_diff(ds[0][1], ds[0][2], path + "/" + a.op)
    if a.op == "poly" and b.op == "poly":
        ma, mb = as_mons(a), as_mons(b)
        da = [(m, c) for m, c in ma.items() if mb.get(m) != c]
        db = [(m, c) for m, c in mb.items() if ma.get(m) != c]
        if len(da) == 1 and len(db) == 1 and da[0][1] == db[0][1]:
            fa, fb = dict(da[0][0]), dict(db[0][0])
            oa = [x for x in fa if fb.get(x) != fa[x]]
            ob = [x for x in fb if fa.get(x) != fb[x]]
            if len(oa) == 1 and len(ob) == 1 and fa[oa[0]] == fb[ob[0]]:
                return first_diff(oa[0], ob[0], path)
    return path, a, b
